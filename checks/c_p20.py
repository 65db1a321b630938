"""P20: models of contacts and interfaces."""


def run(c):
    c.build()
    c.model_check("MCSystem.tla", "MCSystem.cfg", require_actions=("DoContact", "DoInterface", "DoInterfaceModel"))
    tr = c.drive("d_system.py", [["contact", c.seed * 1000 + i, c.n(10, 40), 60] for i in range(c.n(16, 64))])
    c.validate("TraceSystem.tla", "TraceSystem.cfg", tr)
    c.assumptions += ["an interface model whose expression cannot be evaluated (a name known nowhere, a cycle) may read as anything or be refused"]
