"""P15: finite-volume geometry."""


def run(c):
    c.build()
    for d in "23":
        c.model_check("MCGeometry.tla", "MCGeometry%s.cfg" % d, timeout=3000, require_actions=("Pick", "Shape", "Count"))
        c.must_refute("MCGeometry.tla", "MCGeometry%sBad.cfg" % d)
        c.must_refute("MCGeometry.tla", "MCGeometry%sReach.cfg" % d)
    tr = c.drive("d_geom.py", [["x", c.seed * 1000 + i, c.n(12, 100)] for i in range(c.n(32, 128))])
    c.validate("TraceGeometry.tla", "TraceGeometry.cfg", tr)
    c.assumptions += ["meshes of up to some dozen elements whose coordinates are small whole numbers times a power of two",
                      "fractions are compared modulo 46337, lengths and areas to about one part in a thousand",
                      "an element edge's vector in a triangle is compared where the triangle's sides are whole or the field is uniform"]
