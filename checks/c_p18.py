"""P18: arguments are checked against the command's declared signature."""


def run(c):
    c.build()
    c.model_check("MCSession.tla", "MCSession.cfg", timeout=3000, require_actions=("DoMake", "DoDrop", "DoList", "DoLook", "DoReset"))
    for cfg in ("MCSessionSlip.cfg", "MCSessionLax.cfg", "MCSessionReach.cfg"):
        c.must_refute("MCSession.tla", cfg)
    tr = c.drive("d_session.py", [["args", c.seed * 1000 + i, c.n(5, 25), "0.75"] for i in range(c.n(40, 200))])
    tr += c.drive("d_session.py", [["table", c.seed * 1000 + i, c.n(4, 16), "0"] for i in range(c.n(8, 16))])
    c.validate("TraceSession.tla", "TraceSession.cfg", tr)
    c.assumptions += ["what a Python object reads as (text, number, integer, truth value, sequence) is Python's own conversion"]
