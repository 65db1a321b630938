----------------------------- MODULE MCSaveLoad -----------------------------
(* Bounded instance of SaveLoad: whatever is done, a device is always the one somebody told of, *)
(* and a refused command changes nothing.                                                       *)
EXTENDS SaveLoad, Integers

CONSTANTS Devices, Files, Commands, Keys, Values, MaxDef, MaxSteps

VARIABLES step, told,      \* told: every [def, vals] a device ever was
          refused          \* the last command was refused
vars == <<devs, meshes, files, spoiled, step, told, refused>>

Init == SLInit /\ step = 0 /\ told = {} /\ refused = FALSE

Tell == told' = told \cup {devs'[d] : d \in DOMAIN devs'}
Ok(b) == refused' = ~b /\ step < MaxSteps /\ step' = step + 1

\* a loader which loses the values (only to show that this is found)
LoseLoad(f) == /\ CanLoad(f)
               /\ devs' = [d \in DOMAIN devs \cup DOMAIN files[f] |-> IF d \in DOMAIN devs THEN devs[d] ELSE [files[f][d] EXCEPT !.vals = Empty]]
               /\ meshes' = meshes \cup DOMAIN files[f]
               /\ UNCHANGED <<files, spoiled>>

DoMake == \E d \in Devices, c \in Commands : LET ok == d \notin DOMAIN devs IN Make(d, c, ok) /\ Ok(ok) /\ Tell
DoDefine == \E d \in DOMAIN devs, c \in Commands : Len(devs[d].def) < MaxDef /\ Define(d, c, TRUE) /\ Ok(TRUE) /\ Tell
DoSet == \E d \in DOMAIN devs, k \in Keys, v \in Values : Set(d, k, v) /\ Ok(TRUE) /\ Tell
DoDelete == \E d \in DOMAIN devs : Delete(d) /\ Ok(TRUE) /\ UNCHANGED told
DoDeleteMesh == \E m \in meshes : DeleteMesh(m) /\ Ok(TRUE) /\ UNCHANGED told
DoFresh == Fresh /\ Ok(TRUE) /\ UNCHANGED told
DoWrite == \E f \in Files, d \in Devices \cup {""}, can \in BOOLEAN : LET ok == can /\ (d = "" \/ d \in DOMAIN devs) IN Write(f, d, can, ok) /\ Ok(ok) /\ UNCHANGED told
DoSpoil == \E f \in DOMAIN files : Spoil(f) /\ Ok(TRUE) /\ UNCHANGED told
DoLoad == \E f \in Files : LET ok == CanLoad(f) IN Load(f, ok) /\ Ok(ok) /\ UNCHANGED told
DoLose == \E f \in Files : LoseLoad(f) /\ Ok(TRUE) /\ UNCHANGED told

Next == DoMake \/ DoDefine \/ DoSet \/ DoDelete \/ DoDeleteMesh \/ DoFresh \/ DoWrite \/ DoSpoil \/ DoLoad
Spec == Init /\ [][Next]_vars
SpecBad == Init /\ [][Next \/ DoLose]_vars

TypeOK == DOMAIN devs \subseteq Devices /\ DOMAIN files \subseteq Files /\ spoiled \subseteq Files
\* nothing comes from nowhere: devices, and what files hold, have been told of
\* what comes back has been told of, and is a state the writer saw
Known == /\ \A d \in DOMAIN devs : devs[d] \in told
         /\ \A f \in DOMAIN files : \A d \in DOMAIN files[f] : files[f][d] \in told
\* a refused command leaves no trace
NoTrace == [][refused' => UNCHANGED <<devs, meshes, files, spoiled>>]_vars
\* writing never changes the devices
WritesOnlyFiles == [][files' # files => UNCHANGED <<devs, meshes>>]_vars
\* round trip: a successful load into an empty simulator restores the saved devices exactly
RoundTrip == [][\A f \in DOMAIN files : (devs = Empty /\ devs' # Empty /\ meshes' # meshes /\ DOMAIN devs' = DOMAIN files[f] /\ Cardinality(DOMAIN files) = 1)
                  => devs' = files[f]]_vars
NeverBack == \A d \in DOMAIN devs : d \notin meshes \/ Len(devs[d].def) < 2
=============================================================================
