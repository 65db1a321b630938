"""P02: a model read is what evaluation from the current definitions and values gives."""


def run(c):
    c.build()
    c.model_check("ModelCache.tla", "ModelCacheBig.cfg" if c.thorough else "ModelCache.cfg",
                  require_actions=("NewSol", "SetSol", "Expr", "Delete", "SetPar", "ReadModel"))
    c.must_refute("ModelCache.tla", "ModelCacheOld.cfg")
    beh = c.behaviours("ModelCache.tla", "ModelCacheSim.cfg", c.n(60, 600), 35)
    tr = c.drive("d_models.py", [["replay", beh]])
    tr += c.drive("d_models.py", [["random", c.seed * 1000 + i, c.n(25, 60), 60] for i in range(c.n(15, 64))])
    tr += c.drive("d_models.py", [["params", c.seed * 1000 + 500 + i, c.n(25, 60), 60] for i in range(c.n(6, 32))])
    c.validate("TraceModels.tla", "TraceModels.cfg", tr)
    c.assumptions += ["values in the histories are dyadic rationals, for which the code's arithmetic is exact; compared modulo 46337"]
