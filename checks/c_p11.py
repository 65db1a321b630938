"""P11: the netlist: nodes, aliases, elements, solutions, and the equations they make."""


def run(c):
    c.build()
    c.model_check("MCCircuit.tla", "MCCircuitBig.cfg" if c.thorough else "MCCircuit.cfg", timeout=1500,
                  require_actions=("DoAddNode", "DoElement", "DoAlter", "DoAlias", "DoSet", "DoPrepare", "DoDelete"))
    c.must_refute("MCCircuit.tla", "MCCircuitBad.cfg")
    tr = c.drive("d_system.py", [["circuit", c.seed * 1000 + i, c.n(12, 40), 60] for i in range(c.n(16, 64))])
    c.validate("TraceSystem.tla", "TraceSystem.cfg", tr)
    c.assumptions += ["resistances are powers of two, so that conductances are dyadic"]
