"""P04: an expression's value at a location is the pointwise evaluation there."""


def run(c):
    c.build()
    c.model_check("MCExprs.tla", "MCExprsBig.cfg" if c.thorough else "MCExprs.cfg", require_actions=("DefineAny", "Read", "Change"))
    tr = c.drive("d_exprs.py", [["random", c.seed * 1000 + i, c.n(12, 40), 40] for i in range(c.n(16, 64))])
    c.validate("TraceExprs.tla", "TraceExprs.cfg", tr)
    c.assumptions += [
        "arguments are integers small enough for every intermediate result to be exact; the transcendental functions are "
        "uninterpreted (the same argument gives the same value in every place, thread count and task size, per precision)"]
