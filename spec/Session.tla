------------------------------ MODULE Session ------------------------------
(* A session with the simulator, as far as it can be told from outside without knowing what any one
   command means: the simulator is a machine whose state is decided by the commands it has accepted since it
   was started or reset, in the order in which it accepted them, and by nothing else.

   - A command is what its declared signature makes of it: each option has the value given for it, read as the
     option's type, or the default where it is left out.  Two ways to write a command are the same command.
   - Whether a command is accepted, and what it returns, is decided by the state.
   - A command that is refused, and a command that only asks, leave the state alone.  A solve that gives up
     is the exception: it has tried, and leaves what the last attempt leaves (Solve says what); it leaves the
     same each time.
   - A reset, in any state, leads to the state in which the simulator was started.

   The states met are named by numbers; 0 is the initial one.
     at     the state the simulator is in
     tree   what became of each command in each state so far: the state after it, and its answer
     seen   what a look at everything has shown in each state so far *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Sig,          \* the signature of each command: option -> [type, needed, default]
          Asking,       \* the commands that only ask
          Trying        \* the commands that may fail halfway

VARIABLES at, tree, seen
svars == <<at, tree, seen>>

Refused == -1

Empty == [k \in {} |-> 0]
SessionInit == at = 0 /\ tree = Empty /\ seen = Empty

(* args is a set of arguments [n, S, F, I, B, L, A]: the name, and the value as each type reads it ("-": it cannot) *)
Names(args) == {a.n : a \in args}
Read(a, t) ==
  CASE t = "S" -> a.S [] t = "F" -> a.F [] t = "I" -> a.I [] t = "B" -> a.B [] t = "L" -> a.L [] OTHER -> a.A
Unreadable(a, t) == t \in {"F", "I", "B", "L"} /\ Read(a, t) = "-"

Opts(cmd) == DOMAIN Sig[cmd]

MustRefuse(cmd, pos, args) ==
  \/ pos > 0
  \/ \E n \in Names(args) : n \notin Opts(cmd)
  \/ \E n \in Opts(cmd) : Sig[cmd][n].needed /\ n \notin Names(args)
  \/ \E a \in args : a.n \in Opts(cmd) /\ Unreadable(a, Sig[cmd][a.n].type)

Meaning(cmd, args) ==
  [n \in Opts(cmd) |-> IF n \in Names(args) THEN Read(CHOOSE a \in args : a.n = n, Sig[cmd][n].type) ELSE Sig[cmd][n].default]

(* Fresh numbers for states not met before. *)
Fresh == Cardinality(DOMAIN tree) + 1

(* The argument checks refuse: nothing has happened. *)
Malformed(cmd, pos, args, ok) ==
  /\ cmd \in DOMAIN Sig
  /\ MustRefuse(cmd, pos, args)
  /\ ~ok
  /\ UNCHANGED svars

(* The command is understood, and refused for what it would do. *)
Declined(cmd, args, ok) ==
  LET k == <<at, cmd, Meaning(cmd, args)>> IN
  /\ ~ok
  /\ cmd \notin Trying
  /\ IF k \in DOMAIN tree THEN tree[k].to = Refused /\ tree' = tree
     ELSE tree' = (k :> [to |-> Refused, ret |-> ""]) @@ tree
  /\ UNCHANGED <<at, seen>>

(* The command has tried and failed. *)
Tried(cmd, args, ok) ==
  LET k == <<at, cmd, Meaning(cmd, args)>> IN
  /\ ~ok
  /\ cmd \in Trying
  /\ IF k \in DOMAIN tree THEN tree[k].ret = "failed" /\ tree' = tree /\ at' = tree[k].to
     ELSE tree' = (k :> [to |-> Fresh, ret |-> "failed"]) @@ tree /\ at' = Fresh
  /\ UNCHANGED seen

(* The command is carried out, or the question answered. *)
Accepted(cmd, args, ret, ok) ==
  LET k == <<at, cmd, Meaning(cmd, args)>> IN
  /\ ok
  /\ cmd # "reset_devsim"
  /\ IF k \in DOMAIN tree THEN tree[k].to # Refused /\ tree[k].ret = ret /\ tree' = tree /\ at' = tree[k].to
     ELSE LET to == IF cmd \in Asking THEN at ELSE Fresh IN
          tree' = (k :> [to |-> to, ret |-> ret]) @@ tree /\ at' = to
  /\ UNCHANGED seen

ResetAll(cmd, ok) == cmd = "reset_devsim" /\ ok /\ at' = 0 /\ UNCHANGED <<tree, seen>>

Call(cmd, pos, args, ok, ret) ==
  /\ cmd \in DOMAIN Sig
  /\ IF MustRefuse(cmd, pos, args) THEN Malformed(cmd, pos, args, ok)
     ELSE Declined(cmd, args, ok) \/ Tried(cmd, args, ok) \/ Accepted(cmd, args, ret, ok) \/ ResetAll(cmd, ok)

(* A look at everything there is. *)
Look(v) ==
  /\ IF at \in DOMAIN seen THEN seen[at] = v /\ seen' = seen ELSE seen' = (at :> v) @@ seen
  /\ UNCHANGED <<at, tree>>
=============================================================================
