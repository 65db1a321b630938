"""P07: the assembled system is the sum of what the equations' models say, row by row."""


def run(c):
    c.build()
    c.model_check("MCSystem.tla", "MCSystemBig.cfg" if c.thorough else "MCSystem.cfg", timeout=1500,
                  require_actions=("DoEquation", "DoContact", "DoInterface", "DoNode", "DoPrepare"))
    c.must_refute("MCSystem.tla", "MCSystemBad.cfg")
    c.must_refute("MCSystem.tla", "MCSystemReach.cfg")
    tr = c.drive("d_system.py", [["random", c.seed * 1000 + i, c.n(10, 40), 40] for i in range(c.n(16, 64))])
    c.validate("TraceSystem.tla", "TraceSystem.cfg", tr)
    c.assumptions += ["dyadic values, for which assembly is exact; compared modulo 46337",
                      "a derivative of a contact's edge or element model given only in part (its first part missing) is left open"]
