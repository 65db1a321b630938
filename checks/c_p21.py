"""P21: exported files describe the device's mesh and data."""


def run(c):
    c.build()
    c.model_check("MCExport.tla", "MCExport.cfg", timeout=3000, require_actions=("DoDevice", "DoModel", "DoWrite", "DoRefuse"))
    c.must_refute("MCExport.tla", "MCExportLast.cfg")
    c.must_refute("MCExport.tla", "MCExportReach.cfg")
    tr = c.drive("d_export.py", [["x", c.seed * 1000 + i, c.n(10, 60), 1 if i % 8 == 0 else 0] for i in range(c.n(32, 128))])
    c.validate("TraceExport.tla", "TraceExport.cfg", tr)
    c.assumptions += ["tecplot files hold six digits of a value",
                      "directions are compared in 1024ths, where the values of the edges are below 40",
                      "the interchange formats are read with a reader of this check, not with a visualization program"]
