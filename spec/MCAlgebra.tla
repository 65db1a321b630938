------------------------------ MODULE MCAlgebra ------------------------------
(* Every term up to a size, rewritten by the laws the compiler uses: values  *)
(* and derivatives stay, and the derivative is the limit of the differences. *)
EXTENDS Algebra, TLC
CONSTANTS Wrong

VARIABLES was, now, step
vars == <<avars, was, now, step>>

X == <<"v", "x">>  A == <<"v", "a">>  S0 == <<"v", "u">>
L0 == {X, A, S0, C(0), C(1), C(2), C(-1)}
L1 == L0 \cup {<<o, l, r>> : o \in {"+", "*", "^"}, l \in L0, r \in L0} \cup {<<o, l>> : o \in {"exp", "log"}, l \in L0}
        \cup {<<"f", "g", l, r>> : l \in {X, A}, r \in {X, S0}}
L2 == L1 \cup {<<o, l, r>> : o \in {"+", "*", "^"}, l \in L1, r \in L0} \cup {<<o, l, r>> : o \in {"+", "*", "^"}, l \in L0, r \in L1}
         \cup {<<o, l>> : o \in {"exp", "log"}, l \in L1}

Bin(e, o) == e[1] = o /\ Len(e) = 3
\* the laws, applied to the whole term
Laws(e) ==
  (IF Bin(e, "+") \/ Bin(e, "*") THEN {<<e[1], e[3], e[2]>>} ELSE {}) \cup
  (IF Bin(e, "+") /\ e[2] = Zero THEN {e[3]} ELSE {}) \cup
  (IF Bin(e, "*") /\ e[2] = C(1) THEN {e[3]} ELSE {}) \cup
  (IF Bin(e, "*") /\ e[2] = Zero THEN {Zero} ELSE {}) \cup
  (IF Bin(e, "+") /\ e[2] = e[3] THEN {<<"*", C(2), e[2]>>} ELSE {}) \cup
  (IF Bin(e, "*") /\ e[2] = e[3] THEN {<<"^", e[2], C(2)>>} ELSE {}) \cup
  (IF Bin(e, "*") /\ Bin(e[2], "+") THEN {<<"+", <<"*", e[2][2], e[3]>>, <<"*", e[2][3], e[3]>>>>} ELSE {}) \cup
  (IF Bin(e, "*") /\ e[2][1] = "exp" /\ e[3][1] = "exp" THEN {<<"exp", <<"+", e[2][2], e[3][2]>>>>} ELSE {}) \cup
  (IF Bin(e, "*") /\ Bin(e[2], "^") THEN
      (IF e[3] = e[2][2] THEN {<<"^", e[3], <<"+", e[2][3], C(1)>>>>} ELSE {}) \cup
      (IF Bin(e[3], "^") /\ e[3][2] = e[2][2] THEN {<<"^", e[2][2], <<"+", e[2][3], e[3][3]>>>>} ELSE {}) ELSE {}) \cup
  (IF Bin(e, "^") THEN
      (IF e[3] = Zero THEN {C(1)} ELSE {}) \cup (IF e[3] = C(1) THEN {e[2]} ELSE {}) \cup (IF e[2] = C(1) THEN {C(1)} ELSE {}) \cup
      {<<"*", e[2], <<"^", e[2], <<"+", e[3], C(-1)>>>>>>} \cup
      (IF Bin(e[2], "^") THEN {<<"^", e[2][2], <<"*", e[2][3], e[3]>>>>} ELSE {}) \cup
      (IF Bin(e[2], "*") THEN {<<"*", <<"^", e[2][2], e[3]>>, <<"^", e[2][3], e[3]>>>>} ELSE {}) ELSE {}) \cup
  (IF e[1] = "exp" /\ e[2] = Zero THEN {C(1)} ELSE {}) \cup
  (IF e[1] = "exp" /\ e[2][1] = "log" THEN {e[2][2]} ELSE {}) \cup
  (IF e[1] = "exp" /\ Bin(e[2], "+") THEN {<<"*", <<"exp", e[2][2]>>, <<"exp", e[2][3]>>>>} ELSE {}) \cup
  (IF e[1] = "log" /\ e[2][1] = "exp" THEN {e[2][2]} ELSE {}) \cup
  (IF e[1] = "log" /\ Bin(e[2], "^") THEN {<<"*", e[2][3], <<"log", e[2][2]>>>>} ELSE {}) \cup
  (IF e[1] = "log" /\ Bin(e[2], "*") THEN {<<"+", <<"log", e[2][2]>>, <<"log", e[2][3]>>>>} ELSE {}) \cup
  \* what is not a law
  (IF Wrong /\ Bin(e, "^") /\ Bin(e[2], "+") THEN {<<"+", <<"^", e[2][2], e[3]>>, <<"^", e[2][3], e[3]>>>>} ELSE {})

Pts == << [x |-> 12345, a |-> 1 + 31 * 200, u |-> 31 * 77], [x |-> 7000 + 31 * 3, a |-> 1 + 31 * 611, u |-> 961 * 5], [x |-> 31 * 9, a |-> 1, u |-> 31] >>

Init == /\ models = <<>> /\ eqs = <<>> /\ links = <<>> /\ nodes = {} /\ points = Pts
        /\ funcs = [g |-> [args |-> <<"s", "t">>, body |-> <<"*", <<"v", "s">>, <<"v", "s">>, <<"v", "t">>>>,
                           ders |-> << <<"*", C(2), <<"v", "s">>, <<"v", "t">>>>, <<"^", <<"v", "s">>, C(2)>> >>]]
        /\ was \in L2 /\ now = was /\ step = 0
Apply == step = 0 /\ now' \in Laws(now) /\ step' = 1 /\ UNCHANGED <<avars, was>>
Within == /\ step = 0 /\ ~Leaf(now)
          /\ \E i \in (IF now[1] = "f" THEN 3 ELSE 2)..Len(now) : \E t \in Laws(now[i]) : now' = [now EXCEPT ![i] = t]
          /\ step' = 1 /\ UNCHANGED <<avars, was>>
Next == Apply \/ Within
Spec == Init /\ [][Next]_vars

Kept == Equal(Now, Now, was, now)
DersKept == \A n \in {"x", "a", "u"} : Equal(Now, Now, Der(Now, was, n), Der(Now, now, n))
\* f(x + P^2) = f(x) + P^2 f'(x), the second power of P^2 being zero
Limit == step = 0 =>
  \A n \in {"x", "a", "u"} : \A i \in DOMAIN points :
    LET p == points[i] q == [p EXCEPT ![n] = (@ + P * P) % M]
        v == Eval(Now, p, now) w == Eval(Now, q, now) d == Eval(Now, p, Der(Now, now, n))
    IN v = U \/ w = U \/ d = U \/ w = (v + P * P * (d % P)) % M
\* reachability: a derivative that is worth something, of a power with both parts moving
NoPower == ~(now[1] = "^" /\ Mentions(Now, now[2], "a") /\ Mentions(Now, now[3], "a") /\ Eval(Now, points[1], Der(Now, now, "a")) \notin {0, U})
=============================================================================
