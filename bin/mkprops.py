#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})

T = "The five stable tests never load the simulator, so no parameter, model, mesh or solve command is executed by them; "

prop("P01", "Parameters resolve to the innermost scope and belong to their scope",
 "Reading a parameter returns the value set last at the innermost of region, device and global scope that defines it, and the listing of a scope names exactly the parameters set in that scope. A rejected request changes nothing, and a value is visible only under the device and region it was set for. Deleting a device removes its device and region parameters and its materials and leaves those of every other device and of the global scope alone.",
 ["histories"], "every history of set/get/list parameter, material, device creation and deletion commands over any names and scopes",
 T + "and the golden-output scripts upstream set each parameter once.",
 ["src/Data/GlobalData.cc", "src/commands/MaterialCommands.cc", "src/Data/GlobalData.hh"],
 [("GlobalData::GetDBEntryOnRegion / GetDBEntryOnDevice / AddDBEntryOn*", "src/Data/GlobalData.cc"), ("getParameterCmd", "src/commands/MaterialCommands.cc")],
 [("globalData, deviceData, regionData", "parameter maps per scope", "src/Data/GlobalData.hh")], ["set_parameter", "get_parameter", "get_parameter_list", "get_material", "delete_device"])

prop("P02", "A model read always shows the current value of its definition",
 "The values read for a node, edge or element model are always its defining expression (or derivation from another model) evaluated on the current values of the models, solutions and parameters it refers to. This holds after any history of setting values, changing parameters, redefining, deleting and re-creating models and reading them in any order; a cached value is never served once something it depends on, directly or through other models, has changed.",
 ["histories"], "every history of model definition, redefinition, deletion, value update, parameter change and read, over any acyclic dependency graph of node, edge and element models",
 T + "and a stale cache only shows after particular sequences of update, read and redefinition.",
 ["src/Geometry/Region.cc", "src/models/NodeModel.cc", "src/models/EdgeModel.cc", "src/models/TriangleEdgeModel.cc", "src/models/TetrahedronEdgeModel.cc", "src/AutoEquation/ModelExprEval.cc", "src/models/ModelDataHolder.cc"],
 [("SignalCallbacks / RegisterCallback / UnregisterCallback", "src/Geometry/Region.cc"), ("MarkOld / CalculateValues / uptodate", "src/models/NodeModel.cc"), ("SetValues signalling", "src/models/EdgeModel.cc")],
 [("uptodate", "per model flag that values match the definition", "src/models/NodeModel.hh"), ("DependencyMap", "model name to dependents", "src/Geometry/Region.hh")], ["get_node_model_values", "get_edge_model_values", "get_element_model_values"])

prop("P03", "Model names are unique per region and lists show exactly what exists",
 "Within a region a name denotes at most one of a node, edge or element model; defining a name again in the same class replaces it and in another class is refused without changing anything. The model lists name exactly the models defined and not deleted since, deletion affects that name only, and models of one region, interface or device are never visible in another. A definition that depends on itself, directly or through others, is reported as an error when it is read instead of yielding values.",
 ["histories"], "every history of definition, redefinition and deletion commands over node, edge, element and interface models in several regions and devices",
 T + "and upstream scripts define each model once, in one class, and never delete it.",
 ["src/Geometry/Region.cc", "src/Geometry/Interface.cc", "src/commands/ModelCommands.cc"],
 [("AddNodeModel/AddEdgeModel/AddTriangleEdgeModel and Delete*Model", "src/Geometry/Region.cc"), ("inprocess cycle detection", "src/models/NodeModel.cc")], [("nodeModels, edgeModels, triangleEdgeModels", "model registries", "src/Geometry/Region.hh")], ["get_node_model_list", "get_edge_model_list", "get_element_model_list", "get_interface_model_list"])

prop("P04", "Expressions are evaluated pointwise, whatever the threads or precision",
 "The value of an expression model at a node, edge or element edge is the ordinary arithmetic, comparison, logic and conditional evaluation of the expression on the values found at that same location, with edge models seeing the values of the first and second node of the edge under their two names. The result at one location does not depend on the other locations, on which other expressions were evaluated before, on the number of threads or the task size, nor, where the values are exactly representable, on the extended precision setting.",
 ["inputs", "configurations"], "every expression over the built-in arithmetic, relational, logical, conditional and min/max functions and registered functions; every thread count, task size and precision setting",
 T + "and no test evaluates an expression with more than one thread.",
 ["src/AutoEquation/ModelExprEval.cc", "src/AutoEquation/ModelExprData.cc", "src/MathEval/MathEval.cc", "src/MathEval/MathPacket.cc", "src/MathEval/MathWrapper.cc", "src/models/ParallelOpEqual.cc", "src/models/ScalarData.cc"],
 [("eval_function / eval_product / eval_add", "src/AutoEquation/ModelExprEval.cc"), ("MathPacket run over index ranges", "src/MathEval/MathPacket.cc"), ("OpEqualRun", "src/models/ParallelOpEqual.cc")], [], ["get_node_model_values", "get_edge_model_values"])

prop("P05", "The model compiler's algebra preserves values and differentiates correctly",
 "For every expression the model compiler accepts, simplifying, expanding or substituting it gives an expression with the same value at every point where both are defined. The derivative it forms with respect to a variable is the true derivative, zero for a variable that does not occur, and models and user functions are differentiated by the chain rule. What is printed reads back as an expression of the same value, with the operator precedence of the language.",
 ["inputs", "programs"], "every expression over sums, products, quotients, powers, exponential, logarithm, comparisons, logical operators and user functions, at every nesting and every point (fractional powers of positive quantities)",
 "The two tests that run the compiler only check that it exits with 0 on one fixed file each; no value is compared.",
 ["src/adiff/EquationObject.cc", "src/adiff/mcTest.cc", "src/adiff/UserFunc.cc", "src/adiff/LogicalFunc.cc", "src/adiff/mcModel.cc"],
 [("EqObj Derivative/Simplify/Expand/CombineProduct/CombineAdd/subst", "src/adiff/EquationObject.cc"), ("UserFunc derivative chain rule", "src/adiff/UserFunc.cc")], [], ["modelcomp standard output"])

prop("P06", "Equation numbering is a bijection onto the rows of the system",
 "After a system is assembled every equation of every region and every unknown circuit node or branch has one row, no two share a row, and together they fill the rows from zero without gaps. The numbers reported for an equation are those used for its rows in the assembled system, and equations, contact equations and interface equations are listed exactly while defined, each with the options it was last defined with. Deleting a device, an equation or the circuit frees its rows and leaves the other unknowns' values and definitions alone.",
 ["histories", "configurations"], "every history of creating and deleting equations, circuit elements and devices with any number of regions, nodes and equations",
 T + "and numbering over several devices, regions and circuit unknowns at once is reached by no test.",
 ["src/Geometry/Region.cc", "src/Geometry/Device.cc", "src/Circuit/data/NodeKeeper.cc", "src/commands/EquationCommands.cc", "src/math/Newton.cc"],
 [("Region::SetBaseEquationNumber/GetEquationNumber, AddEquation/DeleteEquation", "src/Geometry/Region.cc"), ("NumberEquationsAndSetDimension", "src/math/Newton.cc"), ("NodeKeeper::SetNumbers", "src/Circuit/data/NodeKeeper.cc")], [], ["get_equation_numbers", "get_equation_list", "get_circuit_equation_number", "get_matrix_and_rhs"])

prop("P07", "The assembled matrix and right-hand side are those of the defined equations",
 "For any set of region, contact, interface, circuit and custom equations the assembled right-hand side row of an unknown is the sum of exactly the node, edge, volume and element contributions its equations define there, weighted by the models named for them and signed by edge direction. The assembled matrix is the sum of the same contributions made from the models named as derivatives of those models with respect to each unknown, with contact equations taking the place of the region's on their nodes and interface equations coupling or merging the rows of the two sides. The static and the time-dependent parts are kept apart, and both storage formats describe the same matrix.",
 ["inputs", "configurations"], "every combination of equation kinds and options over any mesh, any values of the models and their derivatives",
 T + "and upstream only compares printed solutions of a few devices.",
 ["src/Equation/Equation.cc", "src/Equation/ContactEquation.cc", "src/Equation/InterfaceEquation.cc", "src/AutoEquation/ExprEquation.cc", "src/AutoEquation/ExprContactEquation.cc", "src/AutoEquation/InterfaceExprEquation.cc", "src/math/Newton.cc", "src/math/CompressedMatrix.cc"],
 [("NodeAssemble/EdgeCoupleAssemble/NodeVolumeAssemble/ElementAssemble", "src/Equation/Equation.cc"), ("Contact*Assemble", "src/Equation/ContactEquation.cc"), ("InterfaceEquation::Assemble and permutation", "src/Equation/InterfaceEquation.cc"), ("LoadMatrixAndRHS, AssembleBulk/Contact/Interface/Circuit", "src/math/Newton.cc"), ("CompressedMatrix::Finalize", "src/math/CompressedMatrix.cc")], [], ["get_matrix_and_rhs"])

prop("P08", "A solve reports convergence truthfully and a failed solve changes nothing",
 "A static solve returns normally if and only if, within the allowed iterations, one iteration had every device's relative and absolute update error and the circuit's below the requested limits; the report it returns has one entry per iteration taken with the errors that decided it. When it does not converge, exceeds the maximum error, diverges or its linear solver fails, every solution variable, circuit value and time-integration state is what it was before the call. The values after a converged solve are those before it plus the updates of the iterations, damped as each equation asks and kept positive where it asks for that.",
 ["inputs", "histories", "fault_sequences"], "every sequence of solves with any limits, any update sequence, any solver failure and any number of devices and circuit unknowns",
 T + "and a failure path can only be seen with a linear solver that fails at a chosen iteration.",
 ["src/math/Newton.cc", "src/Geometry/Region.cc", "src/Equation/Equation.cc", "src/Circuit/data/NodeKeeper.cc", "src/commands/MathCommands.cc"],
 [("Newton::Solve loop, BackupSolutions/RestoreSolutions", "src/math/Newton.cc"), ("Equation::Update and UpdateType", "src/Equation/Equation.cc"), ("NodeKeeper::UpdateSolution", "src/Circuit/data/NodeKeeper.cc")], [], ["solve(info=True)", "get_node_model_values", "get_circuit_node_value"])

prop("P09", "Transient steps integrate the accumulated charge and history exactly",
 "Each accepted implicit step solves the equation of its method, backward Euler, trapezoidal or second-order backward difference with the step it was given, using charges and currents remembered from the last accepted steps. A rejected step and any reading of the system leave that history untouched, an accepted step moves it on by exactly one, and a new steady-state start for transient replaces it. The contact charge and current reported after a step are those of that step.",
 ["histories", "fault_sequences"], "every history of steady-state starts, accepted and rejected transient steps of any method and step size",
 T + "and a wrongly shifted history only shows over several steps with a failure in between.",
 ["src/math/Newton.cc", "src/math/TimeData.cc", "src/math/TimeParams.hh"],
 [("TimeData SetI/SetQ/CopyI/CopyQ", "src/math/TimeData.cc"), ("TransientSolve parameter setup, UpdateTransientCurrent", "src/math/Newton.cc")],
 [("TM0, TM1, TM2", "remembered charge and current vectors", "src/math/TimeData.hh")], ["solve(type=transient_*)", "get_contact_charge", "get_contact_current"])

prop("P10", "Small-signal and noise solutions satisfy the linearised system",
 "The real and imaginary solutions written by a small-signal solve satisfy, at the given frequency, the linear system made of the static matrix plus j times the angular frequency times the time-dependent matrix, driven by exactly the small-signal amplitudes of the circuit's sources. The noise solve yields the solution of the transposed system for the chosen output node. Neither changes the steady-state solution or the transient history.",
 ["inputs", "configurations"], "every linearised system of regions and circuit elements, any frequency, amplitudes and output node",
 T + "and no test checks the complex solution against the matrix.",
 ["src/math/Newton.cc", "src/Circuit/models/sources/IdealVoltage.cc", "src/Circuit/data/NodeKeeper.cc", "src/Equation/Equation.cc"],
 [("Newton::ACSolve / NoiseSolve", "src/math/Newton.cc"), ("ACUpdate / NoiseUpdate", "src/Equation/Equation.cc")], [], ["solve(type=ac)", "solve(type=noise)", "get_circuit_node_value(solution=ssac_real)"])

prop("P11", "Circuit commands act as a netlist with exact element equations",
 "A circuit holds exactly the elements and nodes defined since it was last deleted; the ground node is always at zero, and altering a parameter changes that parameter of that element only. Resistors, capacitors, inductors, voltage and current sources contribute their textbook current and branch equations with the correct sign to both of their nodes, in steady state, transient and small-signal analyses. Node values can be read and written per solution, and a request naming an unknown element, node, parameter or solution is refused and changes nothing.",
 ["histories", "inputs"], "every netlist and every history of adding, altering and deleting elements and reading and writing node values",
 T + "and upstream circuits are a handful of fixed netlists.",
 ["src/commands/CircuitCommands.cc", "src/Circuit/data/NodeKeeper.cc", "src/Circuit/data/InstanceKeeper.cc", "src/Circuit/models/ideal/IdealResistor.cc", "src/Circuit/models/ideal/IdealCapacitor.cc", "src/Circuit/models/ideal/IdealInductor.cc", "src/Circuit/models/sources/IdealVoltage.cc", "src/Circuit/models/sources/IdealCurrent.cc"],
 [("assembleDC / assembleTran / assembleACRHS / addParam", "src/Circuit/models"), ("NodeKeeper, InstanceKeeper", "src/Circuit/data")], [], ["circuit_element", "circuit_alter", "get_circuit_node_list", "get_circuit_node_value", "get_matrix_and_rhs"])

prop("P12", "One-dimensional meshes become exactly the devices described",
 "A finalized one-dimensional mesh has strictly increasing points with a point at every mesh line, in spacings that never exceed the geometric progression asked for from both sides. A device made from it has for each region exactly the points between its two tags, consecutive points joined by one edge, contacts and interfaces at exactly the tagged points, and each interface pairs the coincident points of the two regions meeting there. Inconsistent descriptions are refused, and several devices made from one mesh are equal and independent.",
 ["inputs", "histories"], "every set of mesh lines, spacings, tags, regions, contacts and interfaces, consistent or not",
 T + "and upstream meshes are a few fixed descriptions.",
 ["src/meshing/Mesh1d.cc", "src/meshing/Mesh1dStructs.cc", "src/meshing/MeshUtil.cc", "src/commands/MeshingCommands.cc", "src/meshing/MeshKeeper.cc"],
 [("Mesh1d::Finalize / Instantiate", "src/meshing/Mesh1d.cc"), ("MeshUtil::GetMeshPoints", "src/meshing/MeshUtil.cc")], [], ["get_node_model_values(x)", "get_element_node_list", "get_region_list", "get_interface_model_values"])

prop("P13", "Two-dimensional meshes tile their regions and find their boundaries",
 "A device made from a two-dimensional mesh has as points exactly the grid of its x and y lines, every grid cell in a region is split into triangles that cover it exactly once, and each cell belongs to the last region defined over it. Contacts and interfaces contain exactly the points, edges or pairs of points that their bounding boxes select on the boundary between the regions they name, with corresponding points of the two sides paired at equal coordinates. Inconsistent descriptions are refused without creating a device.",
 ["inputs"], "every set of x and y lines, region, contact and interface boxes",
 T + "and upstream has a single fixed two-dimensional mesh.",
 ["src/meshing/Mesh2d.cc", "src/meshing/Mesh2dStructs.cc", "src/meshing/MeshUtil.cc", "src/meshing/MeshLoaderUtility.cc"],
 [("Mesh2d::Finalize_, Instantiate_", "src/meshing/Mesh2d.cc")], [], ["get_element_node_list", "get_node_model_values", "get_interface_list", "get_contact_list"])

prop("P14", "Imported meshes keep coordinates, elements, contacts and interfaces",
 "A device made from a Gmsh description, given as data or as a file, has for each named region exactly the points and elements of the physical groups mapped to it, with shared points duplicated per region. Contacts hold exactly the boundary elements of their group that lie on their region, and interfaces exactly those shared by both regions, pairing equal coordinates. Interfaces and contacts created afterwards from node lists or interfaces hold exactly the nodes given.",
 ["inputs"], "every 1D, 2D and 3D simplex mesh with any grouping into regions, contacts and interfaces",
 T + "and upstream meshes are a few fixed files.",
 ["src/meshing/GmshLoader.cc", "src/meshing/GmshReader.cc", "src/meshing/MeshLoaderUtility.cc", "src/commands/MeshingCommands.cc"],
 [("GmshLoader::Finalize_/Instantiate_", "src/meshing/GmshLoader.cc"), ("createInterfaceFromNodesCmd / createContactFromInterfaceCmd", "src/commands/MeshingCommands.cc")], [], ["create_gmsh_mesh", "get_element_node_list", "create_interface_from_nodes", "create_contact_from_interface"])

prop("P15", "Finite-volume geometry is complete, oriented and conservative",
 "For every simplex mesh each pair of points that share an element is joined by exactly one edge, whose reported end points, length and unit vector agree with the coordinates. Edge couples, element couples and node volumes of a region are the Voronoi measures of its elements: where every element holds its centre the node volumes add up to the region's measure, the edge value is the sum over the elements of the edge, and edge averages, gradients, element fields and values taken from nodes or edges refer to the right ends. Contact and interface surface areas add up to the measure of the boundary.",
 ["inputs"], "every conforming mesh of segments, triangles or tetrahedra",
 T + "and no test checks a geometric model.",
 ["src/GeomModels/EdgeLength.cc", "src/GeomModels/EdgeCouple.cc", "src/GeomModels/NodeVolume.cc", "src/GeomModels/TriangleEdgeCouple.cc", "src/GeomModels/TetrahedronEdgeCouple.cc", "src/GeomModels/SurfaceArea.cc", "src/GeomModels/UnitVec.cc", "src/GeomModels/AverageEdgeModel.cc", "src/Geometry/Region.cc", "src/Geometry/Triangle.cc", "src/Geometry/Tetrahedron.cc"],
 [("Region::CreateEdges / FinalizeMesh", "src/Geometry/Region.cc"), ("calcEdgeScalarValues of the geometric models", "src/GeomModels")], [], ["get_edge_model_values(EdgeCouple)", "get_node_model_values(NodeVolume)", "get_element_model_values"])

prop("P16", "A saved device loads back as the same device",
 "Writing devices in the restart format and loading them into an empty simulator gives devices with the same regions, materials, contacts, interfaces, coordinates, elements and the same model and solution values and equation definitions. Every expression model has the same definition and goes on following its inputs. Writing never changes the state, and a file that cannot be read, is truncated or names an existing device is refused.",
 ["histories", "inputs"], "every device state reachable by the model, parameter, equation and meshing commands",
 T + "and no test reads a file back.",
 ["src/meshing/DevsimWriter.cc", "src/meshing/DevsimRestartWriter.cc", "src/meshing/DevsimLoader.cc", "src/meshing/DevsimReader.hh", "src/models"],
 [("Serialize methods of the models", "src/models"), ("DevsimLoader::Instantiate_", "src/meshing/DevsimLoader.cc")], [], ["write_devices", "load_devices"])

prop("P17", "A refused command leaves no trace and a reset leaves a fresh simulator",
 "Every command either takes effect and returns, or raises an error and leaves all devices, models, values, parameters, equations, meshes and circuits as they were (what a solve that does not converge leaves is P08); no call ends the process, and a command that only asks changes nothing. After a reset the simulator behaves exactly as a newly started one, whatever was done before. The same commands in the same order always give the same answers and the same state.",
 ["histories", "inputs"], "every sequence of commands, valid or not, in any state",
 T + "and upstream scripts issue only valid commands.",
 ["src/pythonapi/PythonCommands.cc", "src/main/ResetAllData.cc", "src/commands", "src/Data/GlobalData.cc"],
 [("command wrapper catching exceptions", "src/pythonapi/PythonCommands.cc"), ("resetAllData", "src/main/ResetAllData.cc")], [], ["every command", "reset_devsim"])

prop("P18", "Command arguments are checked against the command's declared signature",
 "A command accepts exactly the named options it declares, with values of the declared type, applies the declared default when an option is left out, and requires those declared required. An unknown name, a missing required option, a positional argument or a value of the wrong type is refused and the command has no effect.",
 ["inputs"], "every command with every subset of its options and values of every Python type",
 T + "no test calls a command with a wrong argument.",
 ["src/pythonapi/GetArgs.cc", "src/common_api/GetArgsCommon.cc", "src/pythonapi/ObjectHolder.cc", "src/commands/CheckFunctions.cc"],
 [("GetArgs::processOptions", "src/pythonapi/GetArgs.cc"), ("ObjectHolder conversions", "src/pythonapi/ObjectHolder.cc"), ("option callbacks", "src/commands/CheckFunctions.cc")], [], ["every command"])

prop("P19", "The linear solver protocol is followed and answers are used as given",
 "A user-supplied linear solver is asked to initialize, factor and then solve in that order for every linear system of a solve, with the matrix of the current iteration in the requested storage format, and is told truthfully whether the sparsity pattern is unchanged since its last factorization. Its answer is used exactly as the update, and a failure it reports at any step ends the solve as not converged. Complex systems are offered and answered with their real and imaginary parts.",
 ["histories", "fault_sequences"], "every sequence of solves with changing equations and any failure of the solver at any step",
 T + "no test installs a solver.",
 ["src/math/ExternalPreconditioner.cc", "src/math/Preconditioner.cc", "src/math/CompressedMatrix.cc", "src/math/SolverUtil.cc", "src/math/DirectLinearSolver.cc"],
 [("ExternalPreconditioner::DoLUFactor / DoLUSolve", "src/math/ExternalPreconditioner.cc"), ("symbolic status", "src/math/CompressedMatrix.cc")], [], ["solver_callback"])

prop("P20", "Contact and interface models are restricted to their nodes",
 "A contact equation's node and edge models take part only on the contact's nodes and the edges there, and reading a region model after contact or interface assembly gives its value at every location of the region. An interface model is evaluated per interface node pair with the two regions' node models and its own region's parameters under their suffixed names, and follows any change of these.",
 ["histories", "inputs"], "every history of defining, updating, reading and assembling contact and interface models with shared subexpressions",
 T + "and upstream scripts read a region model only after it was fully evaluated.",
 ["src/AutoEquation/ExprContactEquation.cc", "src/AutoEquation/InterfaceModelExprEval.cc", "src/AutoEquation/InterfaceNodeExprModel.cc", "src/models/InterfaceNodeModel.cc", "src/Geometry/Interface.cc", "src/AutoEquation/ModelExprEval.cc"],
 [("InterfaceModelExprEval", "src/AutoEquation/InterfaceModelExprEval.cc"), ("Interface::SignalCallbacks", "src/Geometry/Interface.cc"), ("contact index evaluation", "src/AutoEquation/ModelExprEval.cc")], [], ["get_interface_model_values", "contact_node_model", "contact_equation"])

prop("P21", "Exported files describe the device's mesh and data",
 "A file written for visualization holds, for each region, exactly its points and elements and every model to be displayed under its own name: node models by point, edge models averaged over the edges of a point or as the vector they describe, element models averaged over the element (Tecplot files to six digits). Models excluded by the caller's filter or by their display type are left out and all others are present. A request that cannot be met is refused and leaves existing files alone.",
 ["inputs"], "every device and any set of models and filter",
 T + "and no test writes a file.",
 ["src/meshing/VTKWriter.cc", "src/meshing/TecplotWriter.cc", "src/meshing/DevsimWriter.cc"],
 [("VTKWriter::WriteMesh", "src/meshing/VTKWriter.cc"), ("TecplotWriter::WriteMesh", "src/meshing/TecplotWriter.cc")], [], ["write_devices(type=vtk)", "write_devices(type=tecplot)"])

prop("P22", "Special functions are accurate over their whole range",
 "The Bernoulli, Fermi, Gauss-Fermi, error and compensated-sum functions and their derivatives agree with their mathematical definitions to within a few units in the last place over the whole range of finite arguments, in both precisions. They are continuous across the internal change-over points.",
 ["inputs"], "every finite argument",
 "The two function tests print values and compare nothing.",
 ["src/MathEval/Bernoulli.cc", "src/MathEval/Fermi.cc", "src/MathEval/GaussFermi.cc", "src/MathEval/MiscMathFunc.cc", "src/MathEval/kahan.cc"],
 [("Bernoulli, Fermi, gfi", "src/MathEval")], [], ["test_fermi", "test_gaussfermi"])

with open(OUT, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
