---------------------------- MODULE TraceSaveLoad ----------------------------
(* Checks recorded histories of writing and loading devices against SaveLoad. *)
EXTENDS SaveLoad, Integers, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, view
tvars == <<devs, meshes, files, spoiled, i, view>>

Accepted == PrintT(<<"ACCEPT", TLCGet("stats").diameter - 1, Len(Trace)>>)

Abs(x) == IF x < 0 THEN -x ELSE x

\* the values of models are told in 2^-20ths: they may differ by rounding
Near(a, b) ==
  /\ DOMAIN a = DOMAIN b
  /\ \A k \in DOMAIN a : Len(a[k]) = Len(b[k]) /\ \A j \in DOMAIN a[k] : Abs(a[k][j] - b[k][j]) <= 1

\* what is seen of a device is what was seen of the same definition with the same values
See(e) ==
  /\ e.d \in DOMAIN devs
  /\ LET st == devs[e.d] IN
     /\ \A k \in DOMAIN st.vals : k \in DOMAIN e.sols /\ e.sols[k] = st.vals[k]
     /\ st \in DOMAIN view => /\ e.shape = view[st].shape
                              /\ e.sols = view[st].sols
                              /\ Near(e.vals, view[st].vals)
     /\ view' = IF st \in DOMAIN view THEN view
                ELSE [s \in DOMAIN view \cup {st} |-> IF s = st THEN [shape |-> e.shape, sols |-> e.sols, vals |-> e.vals] ELSE view[s]]
  /\ UNCHANGED slvars

Same == UNCHANGED view

Step(e) ==
  CASE e.op = "reset" -> devs' = Empty /\ meshes' = {} /\ files' = Empty /\ spoiled' = {} /\ view' = Empty
    [] e.op = "make" -> Make(e.d, e.c, e.ok) /\ Same
    [] e.op = "cmd" -> Define(e.d, e.c, e.ok) /\ Same
    [] e.op = "set" -> e.ok /\ Set(e.d, e.k, e.v) /\ Same
    [] e.op = "delete" -> e.ok /\ Delete(e.d) /\ Same
    [] e.op = "delete_mesh" -> e.ok /\ DeleteMesh(e.m) /\ Same
    [] e.op = "fresh" -> Fresh /\ Same
    [] e.op = "write" -> Write(e.f, e.d, e.can, e.ok) /\ Same
    [] e.op = "spoil" -> Spoil(e.f) /\ Same
    [] e.op = "load" -> Load(e.f, e.ok) /\ Same
    [] e.op = "lists" -> {e.devs[k] : k \in DOMAIN e.devs} = DOMAIN devs /\ {e.meshes[k] : k \in DOMAIN e.meshes} = meshes /\ UNCHANGED slvars /\ Same
    [] e.op = "see" -> See(e)
    \* the points of an interface are joined with those at the same place
    [] e.op = "hand" -> e.c0 = e.c1 /\ {e.c0[k] : k \in DOMAIN e.c0} = {1, 2} /\ Len(e.c0) = 2 /\ UNCHANGED slvars /\ Same
    [] OTHER -> FALSE

TraceInit == SLInit /\ i = 1 /\ view = Empty
TraceNext == /\ i <= Len(Trace)
             /\ Step(Trace[i])
             /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
