----------------------------- MODULE ModelCache -----------------------------
(* How the code keeps models fresh: every model caches its value with a flag  *)
(* that says whether it may be used, and a table of names to notify when a    *)
(* name changes.  The invariant Fresh says this caching cannot be observed:   *)
(* whatever is flagged usable equals what evaluation from scratch would give. *)
(* With SignalOnAdd = FALSE (the code before its repair 6fb4182) TLC finds a  *)
(* history that serves a stale value after a redefinition.                     *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS Names, Mod, SignalOnAdd

VARIABLES def,   \* name -> [k, v] | [k, refs] | [k |-> "none"]
          pv,    \* value of the parameter p
          up,    \* name -> cached value may be used
          val,   \* name -> cached value
          tell,  \* set of <<changed name, name to mark>>
          rep,   \* reply of the last read
          last   \* the last command, for replay

vars == <<def, pv, up, val, tell, rep, last>>
None == [k |-> "none"]
Err == Mod      \* not a value
Models == {n \in Names : def[n].k # "none"}

RECURSIVE Ideal(_, _), SumI(_, _, _)
SumI(R, acc, stk) ==
  IF R = {} THEN acc % Mod
  ELSE LET r == CHOOSE x \in R : TRUE
           x == IF r = "p" THEN pv ELSE Ideal(r, stk)
       IN IF x = Err THEN Err ELSE SumI(R \ {r}, acc + x, stk)
Ideal(n, stk) ==
  CASE n \in stk -> Err
    [] def[n].k = "none" -> 0
    [] def[n].k = "sol" -> def[n].v
    [] OTHER -> SumI(def[n].refs, 1, stk \cup {n})

\* everything reachable in the table of names to notify, passing on only
\* through models that were usable
RECURSIVE Reach(_, _, _)
Reach(S, T, u) == LET N == S \cup {t[2] : t \in {x \in T : x[1] \in S}}
                  IN IF N = S THEN S ELSE Reach(N, T, u)
Marked(n, T) == Reach({t[2] : t \in {x \in T : x[1] = n}}, T, up)

\* reading computes and caches everything on the way
RECURSIVE Needed(_, _)
Needed(n, seen) == IF n \in seen \/ n = "p" \/ up[n] \/ def[n].k # "expr" THEN {}
                   ELSE {n} \cup UNION {Needed(r, seen \cup {n}) : r \in def[n].refs}
\* the value the code computes for n, using usable caches
RECURSIVE Comp(_, _), SumC(_, _, _)
SumC(R, acc, stk) ==
  IF R = {} THEN acc % Mod
  ELSE LET r == CHOOSE x \in R : TRUE
           x == IF r = "p" THEN pv ELSE Comp(r, stk)
       IN IF x = Err THEN Err ELSE SumC(R \ {r}, acc + x, stk)
Comp(n, stk) ==
  CASE n \in stk -> Err
    [] def[n].k = "none" -> 0
    [] up[n] -> val[n]
    [] def[n].k = "sol" -> def[n].v
    [] OTHER -> SumC(def[n].refs, 1, stk \cup {n})

Say(op, n, v, refs) == last' = [op |-> op, n |-> n, v |-> v, refs |-> refs]
Mark(S, u) == [x \in Names |-> IF x \in S THEN FALSE ELSE u[x]]

Init == /\ def = [n \in Names |-> None] /\ pv = 1 /\ up = [n \in Names |-> FALSE]
        /\ val = [n \in Names |-> 0] /\ tell = {} /\ rep = 0
        /\ last = [op |-> "init", n |-> "", v |-> 0, refs |-> {}]

\* node_solution: a new set of values, zero
NewSol(n) ==
  /\ def' = [def EXCEPT ![n] = [k |-> "sol", v |-> 0]]
  /\ tell' = {t \in tell : t[2] # n}
  /\ val' = [val EXCEPT ![n] = 0]
  /\ up' = [Mark(IF SignalOnAdd THEN Marked(n, tell') ELSE {}, up) EXCEPT ![n] = TRUE]
  /\ UNCHANGED <<pv, rep>> /\ Say("sol", n, 0, {})

SetSol(n, v) ==
  /\ def[n].k = "sol"
  /\ def' = [def EXCEPT ![n].v = v] /\ val' = [val EXCEPT ![n] = v]
  /\ up' = [Mark(Marked(n, tell), up) EXCEPT ![n] = TRUE]
  /\ UNCHANGED <<pv, tell, rep>> /\ Say("set", n, v, {})

Expr(n, refs) ==
  /\ refs \subseteq (Models \cup {"p"})
  /\ def' = [def EXCEPT ![n] = [k |-> "expr", refs |-> refs]]
  /\ tell' = (IF SignalOnAdd THEN {t \in tell : t[2] # n} ELSE tell) \cup {<<r, n>> : r \in refs}
  /\ up' = [Mark(IF SignalOnAdd THEN Marked(n, tell') ELSE {}, up) EXCEPT ![n] = FALSE]
  /\ UNCHANGED <<pv, val, rep>> /\ Say("expr", n, 0, refs)

Delete(n) ==
  /\ def[n].k # "none"
  /\ def' = [def EXCEPT ![n] = None]
  /\ tell' = {t \in tell : t[2] # n}
  /\ up' = [Mark(Marked(n, tell), up) EXCEPT ![n] = FALSE]
  /\ UNCHANGED <<pv, val, rep>> /\ Say("delete", n, 0, {})

SetPar(v) ==
  /\ pv' = v
  /\ up' = Mark(Marked("p", tell), up)
  /\ UNCHANGED <<def, val, tell, rep>> /\ Say("par", "p", v, {})

ReadModel(n) ==
  /\ def[n].k # "none"
  /\ rep' = Comp(n, {})
  /\ LET N == {m \in Needed(n, {}) : Comp(m, {}) # Err} IN
     /\ val' = [m \in Names |-> IF m \in N THEN Comp(m, {}) ELSE val[m]]
     /\ up' = [m \in Names |-> up[m] \/ m \in N]
  /\ UNCHANGED <<def, pv, tell>> /\ Say("read", n, 0, {})

Next == \E n \in Names :
          \/ NewSol(n) \/ Delete(n) \/ ReadModel(n)
          \/ \E v \in 0..(Mod - 1) : SetSol(n, v) \/ SetPar(v)
          \/ \E refs \in SUBSET (Names \cup {"p"}) : Expr(n, refs)
Spec == Init /\ [][Next]_vars

TypeOK == /\ up \in [Names -> BOOLEAN] /\ val \in [Names -> 0..Mod] /\ pv \in 0..(Mod - 1)
Fresh == \A n \in Models : up[n] => val[n] = Ideal(n, {})
\* what a read answers is what evaluation from scratch gives
ReadsAreFresh == [][last'.op = "read" => rep' = Ideal(last'.n, {})]_vars
\* a usable model never rests on one that is not
Supported == \A n \in Models : up[n] /\ def[n].k = "expr" =>
               \A r \in def[n].refs \cap Models : up[r]

View == <<def, pv, up, val, tell>>
Emit == PrintT("@@" \o ToJson([l |-> TLCGet("level") - 1, op |-> last.op, n |-> last.n, v |-> last.v, refs |-> last.refs]))
=============================================================================
