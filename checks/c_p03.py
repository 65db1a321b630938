"""P03: the registry of models: names, classes, lists, deletion, refusals."""


def run(c):
    c.build()
    c.model_check("MCModels.tla", "MCModels.cfg",
                  require_actions=("DeleteDevice", "Solution", "Define", "EdgeFromNode", "Average", "Delete", "Read", "List"))
    if c.thorough:
        c.model_check("MCModels.tla", "MCModels2.cfg")
    tr = c.drive("d_models.py", [["registry", c.seed * 1000 + i, c.n(25, 60), 60] for i in range(c.n(16, 64))])
    c.validate("TraceModels.tla", "TraceModels.cfg", tr)
    c.assumptions += ["the parts of a family made by one command (x@n0, x@n1, ...) are deleted together, its first part first"]
