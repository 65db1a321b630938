------------------------------- MODULE Algebra -------------------------------
(* The terms of the model compiler, what they are worth, and how they are    *)
(* differentiated.                                                           *)
(* Values are numbers modulo P^3, P an odd prime, in which the exponential   *)
(* of the multiples of P, the logarithm of the numbers that are one modulo P *)
(* and the powers of these with any exponent are given by their series and   *)
(* obey every law they obey for the real numbers.  All else is undefined.    *)
(* A term is a tuple led by its kind:                                        *)
(*   <<"c", n>>  <<"v", name>>  <<"m", model>>  <<"+", ..>>  <<"*", ..>>      *)
(*   <<"^", base, exponent>>  <<"exp", t>>  <<"log", t>>  <<"f", name, ..>>   *)
(*   <<"diff", t, name>>  <<"<", s, t>> and so on, <<"!", t>>                 *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES models,    \* name -> term
          funcs,     \* name -> [args, body, ders]: what it is worth (unknown to the compiler), and its derivatives as told
          eqs,       \* name -> [dc, td]
          links,     \* equation -> node
          nodes,     \* the names of the nodes
          points     \* the points at which terms are compared: name -> value

avars == <<models, funcs, eqs, links, nodes, points>>

P == 31
M == P * P * P
U == -1
Half == (M + 1) \div 2
Small == 64          \* a number up to this far from zero is a whole number

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rest(s, i) == [k \in 1..(Len(s) - i) |-> s[k + i]]

-----------------------------------------------------------------------------
(* Numbers                                                                   *)

RECURSIVE PowN(_, _)
PowN(b, n) == IF n = 0 THEN 1 % M
              ELSE LET h == PowN(b, n \div 2) s == (h * h) % M IN IF n % 2 = 1 THEN (s * b) % M ELSE s
Inv(b) == IF b % P = 0 THEN U ELSE PowN(b, P * P * (P - 1) - 1)
ExpV(x) == IF x = U \/ x % P # 0 THEN U ELSE (1 + x + Half * ((x * x) % M)) % M
LogV(y) == IF y = U \/ y % P # 1 THEN U ELSE LET t == y - 1 IN (t + (M - Half) * ((t * t) % M)) % M
PowV(b, e) ==
  IF b = U \/ e = U THEN U
  ELSE IF e <= Small THEN PowN(b, e)
  ELSE IF e >= M - Small THEN (IF b % P = 0 THEN U ELSE PowN(Inv(b), M - e))
  ELSE IF b % P = 1 THEN ExpV((e * LogV(b)) % M)
  ELSE U
AddV(a, b) == IF a = U \/ b = U THEN U ELSE (a + b) % M
MulV(a, b) == IF a = U \/ b = U THEN U ELSE (a * b) % M
Truth(b) == IF b THEN 1 ELSE 0

-----------------------------------------------------------------------------
(* Terms                                                                     *)

C(n) == <<"c", n % M>>
Zero == C(0)
Args(e) == IF e[1] = "f" THEN Rest(e, 2) ELSE Rest(e, 1)
Leaf(e) == e[1] \in {"c", "v", "m"}

\* the names of A replaced by the terms B, all at once
RECURSIVE Subst(_, _, _)
Subst(e, A, B) ==
  CASE e[1] = "v" -> (IF \E i \in DOMAIN A : A[i] = e[2] THEN B[CHOOSE i \in DOMAIN A : A[i] = e[2]] ELSE e)
    [] e[1] \in {"c", "m"} -> e
    [] e[1] = "f" -> [i \in DOMAIN e |-> IF i <= 2 THEN e[i] ELSE Subst(e[i], A, B)]
    [] OTHER -> [i \in DOMAIN e |-> IF i = 1 THEN e[i] ELSE Subst(e[i], A, B)]

\* does the term depend on the name
RECURSIVE Mentions(_, _, _)
Mentions(S, e, x) ==
  CASE e[1] = "c" -> FALSE
    [] e[1] = "v" -> e[2] = x
    [] e[1] = "m" -> e[2] = x \/ Mentions(S, S.models[e[2]], x)
    [] e[1] = "diff" -> Mentions(S, e[2], x)
    [] OTHER -> \E i \in DOMAIN Args(e) : Mentions(S, Args(e)[i], x)

Sum(s) == IF s = <<>> THEN Zero ELSE IF Len(s) = 1 THEN s[1] ELSE <<"+">> \o s
Pick(s, T(_)) == SelectSeq(s, T)

\* the derivative with respect to a name, by the rules of the textbooks
RECURSIVE Der(_, _, _)
Der(S, e, x) ==
  IF ~Mentions(S, e, x) THEN Zero ELSE
  CASE e[1] = "v" -> C(1)
    [] e[1] = "m" -> IF e[2] = x THEN C(1) ELSE Der(S, S.models[e[2]], x)
    [] e[1] = "+" -> <<"+">> \o [i \in DOMAIN Args(e) |-> Der(S, Args(e)[i], x)]
    [] e[1] = "*" -> LET a == Args(e) T(i) == Mentions(S, a[i], x) ks == SelectSeq([i \in DOMAIN a |-> i], T) IN
                     Sum([k \in DOMAIN ks |-> <<"*">> \o [i \in DOMAIN a |-> IF i = ks[k] THEN Der(S, a[i], x) ELSE a[i]]])
    [] e[1] = "^" ->
         LET b == e[2] k == e[3]
             one == <<"*", k, <<"^", b, <<"+", k, C(-1)>>>>, Der(S, b, x)>>
             two == <<"*", e, <<"log", b>>, Der(S, k, x)>>
         IN IF ~Mentions(S, k, x) THEN one ELSE IF ~Mentions(S, b, x) THEN two ELSE <<"+", one, two>>
    [] e[1] = "exp" -> <<"*", e, Der(S, e[2], x)>>
    [] e[1] = "log" -> <<"*", <<"^", e[2], C(-1)>>, Der(S, e[2], x)>>
    [] e[1] = "f" ->
         LET F == S.funcs[e[2]] a == Args(e) T(i) == Mentions(S, a[i], x) ks == SelectSeq([i \in DOMAIN a |-> i], T) IN
         IF F.ders = <<>> THEN Zero
         ELSE Sum([k \in DOMAIN ks |-> <<"*", Subst(F.ders[ks[k]], F.args, a), Der(S, a[ks[k]], x)>>])
    [] e[1] = "diff" -> Der(S, Der(S, e[2], e[3]), x)
    [] OTHER -> Zero       \* comparisons

RECURSIVE Eval(_, _, _), Fold(_, _, _, _)
Eval(S, p, e) ==
  CASE e[1] = "c" -> e[2]
    [] e[1] = "v" -> p[e[2]]
    [] e[1] = "m" -> Eval(S, p, S.models[e[2]])
    [] e[1] \in {"+", "*"} -> Fold(S, p, e, Len(e))
    [] e[1] = "^" -> PowV(Eval(S, p, e[2]), Eval(S, p, e[3]))
    [] e[1] = "exp" -> ExpV(Eval(S, p, e[2]))
    [] e[1] = "log" -> LogV(Eval(S, p, e[2]))
    [] e[1] = "f" -> LET F == S.funcs[e[2]] IN Eval(S, p, Subst(F.body, F.args, Args(e)))
    [] e[1] = "diff" -> Eval(S, p, Der(S, e[2], e[3]))
    [] e[1] = "!" -> LET a == Eval(S, p, e[2]) IN IF a = U THEN U ELSE Truth(a = 0)
    [] OTHER ->
         LET a == Eval(S, p, e[2]) b == Eval(S, p, e[3]) IN
         IF a = U \/ b = U THEN U ELSE
         Truth(CASE e[1] = "<" -> a < b
                 [] e[1] = "<=" -> a <= b
                 [] e[1] = ">" -> a > b
                 [] e[1] = ">=" -> a >= b
                 [] e[1] = "==" -> a = b
                 [] e[1] = "!=" -> a # b
                 [] e[1] = "&&" -> a # 0 /\ b # 0
                 [] e[1] = "||" -> a # 0 \/ b # 0)
Fold(S, p, e, n) ==
  IF n = 1 THEN (IF e[1] = "+" THEN 0 ELSE 1)
  ELSE LET r == Fold(S, p, e, n - 1) v == Eval(S, p, e[n]) IN IF e[1] = "+" THEN AddV(r, v) ELSE MulV(r, v)

-----------------------------------------------------------------------------
(* What the compiler is told, and what it may answer.                        *)

Now == [models |-> models, funcs |-> funcs]

\* one term stands for another: the same value wherever both have one
Equal(S, T, a, b) == \A i \in DOMAIN points : LET v == Eval(S, points[i], a) w == Eval(T, points[i], b) IN v = U \/ w = U \/ v = w
\* and it has one wherever the other has
Covers(S, T, a, b) == \A i \in DOMAIN points : LET v == Eval(S, points[i], a) w == Eval(T, points[i], b) IN v = U \/ v = w
IsZero(S, a) == \A i \in DOMAIN points : Eval(S, points[i], a) \in {0, U}

Start(ps) == /\ models' = <<>> /\ funcs' = <<>> /\ eqs' = <<>> /\ links' = <<>> /\ nodes' = {} /\ points' = ps
Func(f, a, b, d) == /\ funcs' = Put(funcs, f, [args |-> a, body |-> b, ders |-> d]) /\ UNCHANGED <<models, eqs, links, nodes, points>>
Node(n) == /\ n \notin nodes /\ nodes' = nodes \cup {n} /\ UNCHANGED <<models, funcs, eqs, links, points>>
Model(m, t) == /\ m \notin DOMAIN models /\ models' = Put(models, m, t) /\ UNCHANGED <<funcs, eqs, links, nodes, points>>
Equation(q, dc, td) == /\ q \notin DOMAIN eqs /\ eqs' = Put(eqs, q, [dc |-> dc, td |-> td]) /\ UNCHANGED <<models, funcs, links, nodes, points>>
Link(q, n) == /\ q \in DOMAIN eqs \ DOMAIN links /\ n \in nodes /\ links' = Put(links, q, n) /\ UNCHANGED <<models, funcs, eqs, nodes, points>>

AInit == models = <<>> /\ funcs = <<>> /\ eqs = <<>> /\ links = <<>> /\ nodes = {} /\ points = <<>>
=============================================================================
