"""P17: a refused command leaves no trace, and a reset leaves a fresh simulator."""


def run(c):
    c.build()
    c.model_check("MCSession.tla", "MCSession.cfg", timeout=3000, require_actions=("DoMake", "DoDrop", "DoList", "DoLook", "DoReset"))
    for cfg in ("MCSessionLeak.cfg", "MCSessionStale.cfg", "MCSessionReach.cfg"):
        c.must_refute("MCSession.tla", cfg)
    tr = c.drive("d_session.py", [["hist", c.seed * 1000 + i, c.n(8, 30), "0.6"] for i in range(c.n(40, 200))])
    c.validate("TraceSession.tla", "TraceSession.cfg", tr)
    c.assumptions += ["what may stay after a refused command or a reset is what the commands that only look can tell, and what later commands do",
                      "a solve that gives up is a step, not a refusal: what it leaves is the subject of P08",
                      "declarations made to the symbolic engine (symdiff) and files written are outside the state"]
