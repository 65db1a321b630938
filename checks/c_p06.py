"""P06: the registry of equations and the numbering of unknowns."""


def run(c):
    c.build()
    c.model_check("MCSystem.tla", "MCSystemBig.cfg" if c.thorough else "MCSystem.cfg", timeout=1500,
                  require_actions=("DoEquation", "DoDelete", "DoContact", "DoDeleteContact", "DoInterface", "DoDeleteInterface", "DoNode"))
    tr = c.drive("d_system.py", [["registry", c.seed * 1000 + i, c.n(10, 40), 60] for i in range(c.n(16, 64))])
    c.validate("TraceSystem.tla", "TraceSystem.cfg", tr)
    c.assumptions += ["the numbers themselves are free: any bijection from the unknowns to 0..N-1 is accepted"]
