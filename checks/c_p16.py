"""P16: a saved device loads back as the same device."""


def run(c):
    c.build()
    c.model_check("MCSaveLoad.tla", "MCSaveLoad.cfg", timeout=3000, require_actions=("DoWrite", "DoLoad", "DoSpoil", "DoFresh", "DoSet"))
    c.must_refute("MCSaveLoad.tla", "MCSaveLoadBad.cfg")
    c.must_refute("MCSaveLoad.tla", "MCSaveLoadReach.cfg")
    c.model_check("Restart.tla", "Restart.cfg", timeout=3000, require_actions=("Data", "Cmd", "Pair", "First", "Second"))
    c.must_refute("Restart.tla", "RestartOne.cfg")
    c.must_refute("Restart.tla", "RestartLate.cfg")
    tr = c.drive("d_save.py", [["x", c.seed * 1000 + i, c.n(6, 40), 5] for i in range(c.n(32, 128))])
    c.validate("TraceSaveLoad.tla", "TraceSaveLoad.cfg", tr)
    c.assumptions += ["no name of an expression becomes the name of a model after the expression was defined, and no model in use is deleted",
                      "names without quotation marks; double precision models",
                      "global parameters, circuits and custom equations are not part of a device and are set again before loading"]
