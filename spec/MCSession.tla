----------------------------- MODULE MCSession -----------------------------
(* A small simulator with an inside - named things with a size, a hidden cache of which nothing can be seen -
   and Session as its witness.  The witness never has to contradict what a sound simulator does; it does
   contradict one in which a refused command leaves something behind (Leak), a reset leaves something (Stale),
   an option left out is not its default (Slip), or a badly typed value is let through (Lax). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Leak, Stale, Slip, Lax, MaxStates

Sig == [make |-> [name |-> [type |-> "S", needed |-> TRUE, default |-> ""], size |-> [type |-> "I", needed |-> FALSE, default |-> "1"]],
        drop |-> [name |-> [type |-> "S", needed |-> TRUE, default |-> ""]],
        list |-> <<>>,
        reset_devsim |-> <<>>]

VARIABLES at, tree, seen,     \* the witness
          things, old,        \* the simulator: what is there; something it keeps to itself
          bad
INSTANCE Session WITH Asking <- {"list"}, Trying <- {}
vars == <<at, tree, seen, things, old, bad>>

A(n, s, k) == [n |-> n, S |-> s, F |-> k, I |-> k, B |-> "-", L |-> "-", A |-> s]
ArgSets ==
  LET nm == {A("name", "a", "-"), A("name", "b", "-")}
      sz == {A("size", "1", "1"), A("size", "2", "2"), A("size", "x", "-")}
  IN {{}} \cup {{x} : x \in nm} \cup {{x, y} : x \in nm, y \in sz} \cup {{x} : x \in sz} \cup {{x, A("zzz", "1", "1")} : x \in nm}

Init == SessionInit /\ things = {} /\ old = FALSE /\ bad = FALSE

Val(args, n) == IF n \in Names(args) THEN (CHOOSE a \in args : a.n = n).S ELSE "?"
Num(args) == IF "size" \notin Names(args) THEN (IF Slip /\ old THEN "2" ELSE "1")
             ELSE IF (CHOOSE a \in args : a.n = "size").I = "-" THEN "1" ELSE (CHOOSE a \in args : a.n = "size").I

Judge(cmd, args, ok, ret) ==
  \/ Call(cmd, 0, args, ok, ret) /\ bad' = FALSE
  \/ ~ENABLED Call(cmd, 0, args, ok, ret) /\ bad' = TRUE /\ UNCHANGED <<at, tree, seen>>

Bound == Cardinality(DOMAIN tree) < MaxStates
Shape(cmd, args) == ~(IF Lax /\ cmd = "make" THEN \/ \E n \in Names(args) : n \notin Opts(cmd)
                                                 \/ "name" \notin Names(args)
                      ELSE MustRefuse(cmd, 0, args))

DoMake == \E args \in ArgSets :
  LET ok == Shape("make", args) /\ ~\E t \in things : t.name = Val(args, "name") IN
  /\ Bound /\ ~bad
  /\ IF ok THEN things' = things \cup {[name |-> Val(args, "name"), size |-> Num(args)]}
     ELSE things' = things
  /\ old' = (old \/ ok)
  /\ Judge("make", args, ok, "")

DoDrop == \E args \in ArgSets :
  LET well == Shape("drop", args)
      ok == well /\ \E t \in things : t.name = Val(args, "name") IN
  /\ Bound /\ ~bad
  /\ IF ok THEN things' = {t \in things : t.name # Val(args, "name")}
     ELSE things' = IF Leak /\ well THEN {[t EXCEPT !.size = "2"] : t \in things} ELSE things
  /\ old' = old
  /\ Judge("drop", args, ok, "")

Show == IF things = {} THEN "none" ELSE IF Cardinality(things) = 1 THEN (CHOOSE t \in things : TRUE).name ELSE "both"
DoList == Bound /\ ~bad /\ UNCHANGED <<things, old>> /\ Judge("list", {}, TRUE, Show)

Digest == {<<t.name, t.size>> : t \in things}
DoLook == /\ ~bad /\ UNCHANGED <<things, old>>
          /\ \/ Look(Digest) /\ bad' = FALSE
             \/ ~ENABLED Look(Digest) /\ bad' = TRUE /\ UNCHANGED <<at, tree, seen>>

DoReset == /\ ~bad
           /\ things' = IF Stale /\ old THEN {t \in things : t.size = "2"} ELSE {}
           /\ old' = FALSE
           /\ Judge("reset_devsim", {}, TRUE, "")

Next == DoMake \/ DoDrop \/ DoList \/ DoLook \/ DoReset
Spec == Init /\ [][Next]_vars

(* The witness never contradicts. *)
NoAlarm == ~bad
(* The state the witness names decides what is there. *)
Decided == at \in DOMAIN seen => seen[at] = Digest
(* Reached: the same state has been met again after a reset and a refused command. *)
NeverAgain == ~(\E k \in DOMAIN tree : tree[k].to = Refused /\ k[1] # 0 /\ at = 0 /\ Cardinality(DOMAIN seen) > 2)
=============================================================================
