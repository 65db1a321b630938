"""P13: two-dimensional meshes become exactly the devices described."""


def run(c):
    c.build()
    c.model_check("MCMesh2d.tla", "MCMesh2dBig.cfg" if c.thorough else "MCMesh2d.cfg", timeout=3000,
                  require_actions=("DoLine", "DoRegion", "DoContact", "DoInterface", "Finalize", "CreateDevice", "DeleteDevice"))
    c.must_refute("MCMesh2d.tla", "MCMesh2dReach.cfg")
    c.must_refute("MCMesh2d.tla", "MCMesh2dBad.cfg")
    tr = c.drive("d_mesh2d.py", [["2d", c.seed * 1000 + i, c.n(10, 60), 60] for i in range(c.n(32, 128))])
    c.validate("TraceMesh2d.tla", "TraceMesh2d.cfg", tr)
    c.assumptions += ["grids of up to some eight lines each way; coordinates are multiples of a quarter of the scale, or points of graded sections compared to within 2^-10 of it",
                      "the corner of a box is met within the default margin, or missed by an eighth of a unit"]
