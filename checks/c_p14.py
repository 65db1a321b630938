"""P14: imported meshes become exactly the devices described."""


def run(c):
    c.build()
    acts = ("DoRegion", "DoContact", "DoInterface", "Finalize", "CreateDevice")
    c.model_check("MCGMesh.tla", "MCGMesh.cfg", timeout=3000, require_actions=acts)
    c.model_check("MCGMesh.tla", "MCGMesh3.cfg", timeout=3000, require_actions=acts)
    c.must_refute("MCGMesh.tla", "MCGMeshReach.cfg")
    c.must_refute("MCGMesh.tla", "MCGMeshBad.cfg")
    tr = c.drive("d_gmesh.py", [["x", c.seed * 1000 + i, c.n(6, 40), 6] for i in range(c.n(32, 128))])
    c.validate("TraceGMesh.tla", "TraceGMesh.cfg", tr)
    c.assumptions += ["meshes of up to some dozen points in one, two and three dimensions, given as arguments or as files of format 2.1 and 2.2",
                      "interfaces made from nodes join two different regions"]
