------------------------------ MODULE Restart ------------------------------
(***************************************************************************)
(* How the definitions of a device are restored from a file.               *)
(*                                                                         *)
(* A name in the expression of a model means a model if there is one of    *)
(* this name when the expression is defined, and a parameter otherwise.    *)
(* The file holds the models in the order of their names, not in the order *)
(* they were defined in.  So the loader first puts a model without meaning *)
(* in the place of each, and then runs the definitions in that order.      *)
(* Every name then means what it meant before, whatever the order was,     *)
(* unless a model was added after an expression took its name for a        *)
(* parameter.  Models which are made by the command of another (its        *)
(* derivatives, its components) come with it.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Names,        \* names of models, 1 .. n: the order in the file
          Placeholders  \* whether the loader does the first pass

None == [kind |-> "none", uses |-> {}, means |-> {}, of |-> 0]

VARIABLES m,        \* name -> what is defined: data, cmd with the names it uses and those which mean models, part of another
          late,     \* a name which was taken for a parameter became a model
          phase, at, n
vars == <<m, late, phase, at, n>>

Exists(f, x) == f[x].kind # "none"

VARIABLE saved
all == <<m, late, phase, at, n, saved>>

Init == /\ m = [x \in Names |-> None] /\ late = FALSE /\ phase = "use" /\ at = 0 /\ n = 0
        /\ saved = [x \in Names |-> None]

Become(f, x, v) == [f EXCEPT ![x] = v]
IsLate(f, x) == ~Exists(f, x) /\ \E y \in Names : f[y].kind = "cmd" /\ x \in f[y].uses \ f[y].means

\* solutions, whose values are in the file
Data == /\ phase = "use" /\ n < 4
        /\ \E x \in Names : /\ ~Exists(m, x)
                            /\ m' = Become(m, x, [kind |-> "data", uses |-> {}, means |-> {}, of |-> 0])
                            /\ late' = (late \/ IsLate(m, x))
        /\ n' = n + 1 /\ UNCHANGED <<phase, at, saved>>

Cmd == /\ phase = "use" /\ n < 4
       /\ \E x \in Names, u \in SUBSET Names : /\ x \notin u
                                                /\ m' = Become(m, x, [kind |-> "cmd", uses |-> u, means |-> {y \in u : Exists(m, y)}, of |-> 0])
                                                /\ late' = (late \/ IsLate(m, x))
       /\ n' = n + 1 /\ UNCHANGED <<phase, at, saved>>

\* a command which makes two models
Pair == /\ phase = "use" /\ n < 4
        /\ \E x, y \in Names : /\ x < y
                               /\ m' = Become(Become(m, x, [kind |-> "cmd", uses |-> {}, means |-> {}, of |-> 0]), y, [kind |-> "part", uses |-> {}, means |-> {}, of |-> x])
                               /\ late' = (late \/ IsLate(m, x) \/ IsLate(m, y))
        /\ n' = n + 1 /\ UNCHANGED <<phase, at, saved>>

Save == /\ phase = "use" /\ n > 0 /\ saved' = m
        /\ m' = [x \in Names |-> None] /\ phase' = "first" /\ at' = 0 /\ UNCHANGED <<late, n>>

\* first pass: data gets its values; every other gets a place
First == /\ phase = "first"
         /\ m' = [x \in Names |-> IF saved[x].kind = "none" THEN None
                                  ELSE IF saved[x].kind = "data" THEN saved[x]
                                  ELSE IF Placeholders THEN [kind |-> "place", uses |-> {}, means |-> {}, of |-> 0]
                                  ELSE None]
         /\ phase' = "second" /\ at' = 1 /\ UNCHANGED <<late, n, saved>>

Parts(x) == {y \in Names : saved[y].kind = "part" /\ saved[y].of = x}

Second == /\ phase = "second" /\ at \in Names
          /\ m' = IF saved[at].kind # "cmd" THEN m
                  ELSE [y \in Names |-> IF y = at THEN [saved[at] EXCEPT !.means = {z \in saved[at].uses : Exists(m, z)}]
                                        ELSE IF y \in Parts(at) THEN saved[y] ELSE m[y]]
          /\ at' = at + 1 /\ UNCHANGED <<late, phase, n, saved>>

Done == phase = "second" /\ at \notin Names

Next == Data \/ Cmd \/ Pair \/ Save \/ First \/ Second
Spec == Init /\ [][Next]_all

\* a part whose maker is gone stays a place without meaning
Orphan(x) == saved[x].kind = "part" /\ saved[saved[x].of].kind # "cmd"
Same == Done /\ ~late => \A x \in Names : ~Orphan(x) => m[x] = saved[x]
SameEvenLate == Done => \A x \in Names : ~Orphan(x) => m[x] = saved[x]
NoPlaceLeft == Done => \A x \in Names : m[x].kind = "place" => Orphan(x)
=============================================================================
