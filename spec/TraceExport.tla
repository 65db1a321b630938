----------------------------- MODULE TraceExport -----------------------------
(* Checks recorded histories of files being written for visualization against Export. *)
EXTENDS Export, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i
tvars == <<shown, seen, i>>

Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Trace)>>)

Step(e) ==
  CASE e.op = "reset" -> shown' = None /\ seen' = None
    [] e.op = "device" -> Device(e.d, e.ok)
    [] e.op = "model" -> Model(e.d, e.r, e.kind, e.n, e.show, e.ok)
    [] e.op = "see" -> See(e.d, [dim |-> e.dim, regions |-> e.regions])
    [] e.op = "write" -> Write(e)
    [] OTHER -> FALSE

TraceInit == ExInit /\ i = 1
TraceNext == /\ i <= Len(Trace)
             /\ Step(Trace[i])
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
