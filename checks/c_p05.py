"""P05: the model compiler's terms keep their values and are differentiated rightly."""


def run(c):
    c.build()
    c.model_check("MCAlgebra.tla", "MCAlgebra.cfg", timeout=3000, require_actions=("Apply", "Within"))
    c.must_refute("MCAlgebra.tla", "MCAlgebraBad.cfg")
    c.must_refute("MCAlgebra.tla", "MCAlgebraReach.cfg")
    tr = c.drive("d_algebra.py", [["x", c.seed * 1000 + i, c.n(12, 120)] for i in range(c.n(32, 128))])
    c.validate("TraceAlgebra.tla", "TraceAlgebra.cfg", tr)
    c.assumptions += ["terms are compared at three points each, modulo the cube of 31, where exponentials, logarithms and powers are given by their series; "
                      "fractional powers are taken of quantities with a logarithm only (the positive ones)",
                      "what the compiler prints on its standard error and the two assembly routines it writes are read by a reader of the documented grammar"]
