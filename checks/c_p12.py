"""P12: one-dimensional meshes become exactly the devices described."""


def run(c):
    c.build()
    c.model_check("MCMesh1d.tla", "MCMesh1dBig.cfg" if c.thorough else "MCMesh1d.cfg", timeout=1500,
                  require_actions=("AddSomeLine", "AddSomeRegion", "AddSomeContact", "AddSomeInterface", "Finalize", "CreateDevice", "DeleteDevice"))
    c.must_refute("MCMesh1d.tla", "MCMesh1dReach.cfg")
    c.model_check("MCMesh1dGrid.tla", "MCMesh1dGrid.cfg", timeout=600)
    c.must_refute("MCMesh1dGrid.tla", "MCMesh1dGridBad.cfg")
    tr = c.drive("d_mesh1d.py", [["1d", c.seed * 1000 + i, c.n(12, 60), 60] for i in range(c.n(16, 64))])
    c.validate("TraceMesh1d.tla", "TraceMesh1d.cfg", tr)
    c.assumptions += ["coordinates inside graded sections are compared to within 2^-10 of the smallest spacing; mesh lines exactly",
                      "where the two spacings asked for do not fit between two lines the section is one interval"]
