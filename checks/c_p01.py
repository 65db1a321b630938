"""P01: the parameter and material store."""
import json
import os


def run(c):
    c.build()
    c.model_check("MCParams.tla", "MCParams.cfg",
                  require_actions=("SetParam", "GetParam", "ListParam", "DeleteDevice", "CreateDevice", "SetMaterial", "GetMaterial"))
    # behaviours of the specification, stepped through the real code
    lines = c.simulate("MCParams.tla", "MCParamsSim.cfg", num=c.n(40, 400), depth=30, seed=c.seed)
    beh = os.path.join(c.work, "behaviours.ndjson")
    with open(beh, "w") as f:
        for r in lines:
            f.write(json.dumps(r) + "\n")
    tr = c.drive("d_params.py", [["replay", beh]])
    # random histories over a larger universe
    k = c.n(7, 32)
    tr += c.drive("d_params.py", [["random", c.seed * 1000 + i, c.n(25, 120), 40] for i in range(k)])
    c.validate("TraceParams.tla", "TraceParams.cfg", tr)
    c.assumptions += ["parameter values are compared by their printed form and type"]
