"""P09: time steps and the history they are taken from."""


def run(c):
    c.build()
    c.model_check("MCSolve.tla", "MCSolveBig.cfg" if c.thorough else "MCSolve.cfg", timeout=3000,
                  require_actions=("DoSolve", "DoStart", "DoFactor", "DoAnswer", "DoGood", "DoBad"))
    c.must_refute("MCSolve.tla", "MCSolveReach.cfg")
    tr = c.drive("d_solve.py", [["transient", c.seed * 1000 + i, c.n(5, 16), 16] for i in range(c.n(32, 96))])
    c.validate("TraceSolve.tla", "TraceSolve.cfg", tr)
    c.assumptions += ["unknowns and updates are dyadic; damped and positive updates are compared within 1/1024",
                      "the linear solver is the driver's own: it sees the matrix and the right hand side of each iteration"]
