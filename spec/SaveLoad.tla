------------------------------ MODULE SaveLoad ------------------------------
(***************************************************************************)
(* Devices written to files and loaded again.                              *)
(*                                                                         *)
(* A device is what has been told of it: the sequence of commands which    *)
(* defined it, and the values last given to its solutions.  What is seen   *)
(* of a device (its points, elements, contacts, interfaces, the names and  *)
(* values of its models, its equations) is a function of these two, and a  *)
(* file holds these two for each of its devices.  So the specification     *)
(* remembers what was seen of every (definition, values) pair, and a       *)
(* device which comes back from a file has to be seen, and has to answer   *)
(* to new values, like the one which was written.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES devs,       \* name of a device -> [def, vals]
          meshes,     \* names of meshes in use (loading leaves a mesh with the name of the device)
          files,      \* name of a file -> name of a device -> [def, vals]
          spoiled     \* names of files which are damaged
slvars == <<devs, meshes, files, spoiled>>

Empty == [x \in {} |-> 0]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

SLInit == devs = Empty /\ meshes = {} /\ files = Empty /\ spoiled = {}

\* a new device; the mesh it is made from is not kept
Make(d, c, ok) ==
  /\ ok = (d \notin DOMAIN devs)
  /\ devs' = IF ok THEN Put(devs, d, [def |-> <<c>>, vals |-> Empty]) ELSE devs
  /\ UNCHANGED <<meshes, files, spoiled>>

\* a command which adds to the definition
Define(d, c, ok) ==
  /\ d \in DOMAIN devs
  /\ devs' = IF ok THEN [devs EXCEPT ![d].def = Append(@, c)] ELSE devs
  /\ UNCHANGED <<meshes, files, spoiled>>

Set(d, k, v) ==
  /\ d \in DOMAIN devs
  /\ devs' = [devs EXCEPT ![d].vals = Put(@, k, v)]
  /\ UNCHANGED <<meshes, files, spoiled>>

Delete(d) ==
  /\ d \in DOMAIN devs
  /\ devs' = Drop(devs, d)
  /\ UNCHANGED <<meshes, files, spoiled>>

DeleteMesh(m) ==
  /\ m \in meshes
  /\ meshes' = meshes \ {m}
  /\ UNCHANGED <<devs, files, spoiled>>

\* the simulator starts again, files stay
Fresh == devs' = Empty /\ meshes' = {} /\ UNCHANGED <<files, spoiled>>

\* writing one device, or all (d = ""): the state stays, and a refusal leaves the file as it was
Write(f, d, can, ok) ==
  /\ ok = (can /\ (d = "" \/ d \in DOMAIN devs))
  /\ files' = IF ~ok THEN files
              ELSE Put(files, f, IF d = "" THEN devs ELSE [x \in {d} |-> devs[x]])
  /\ spoiled' = IF ok THEN spoiled \ {f} ELSE spoiled
  /\ UNCHANGED <<devs, meshes>>

Spoil(f) == spoiled' = spoiled \cup {f} /\ UNCHANGED <<devs, meshes, files>>

\* all devices of a file come back, or none
CanLoad(f) == /\ f \in DOMAIN files
              /\ f \notin spoiled
              /\ DOMAIN files[f] \cap (DOMAIN devs \cup meshes) = {}
Load(f, ok) ==
  /\ ok = CanLoad(f)
  /\ devs' = IF ok THEN [d \in DOMAIN devs \cup DOMAIN files[f] |-> IF d \in DOMAIN devs THEN devs[d] ELSE files[f][d]] ELSE devs
  /\ meshes' = IF ok THEN meshes \cup DOMAIN files[f] ELSE meshes
  /\ UNCHANGED <<files, spoiled>>
=============================================================================
