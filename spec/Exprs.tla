-------------------------------- MODULE Exprs --------------------------------
(* Expressions mean the same thing at every location: the value at location i *)
(* is the ordinary evaluation of the expression on the values at i.  Numbers  *)
(* are integers small enough for the code's arithmetic to be exact in either  *)
(* precision.  The number of threads, the size of their tasks and the         *)
(* precision are not part of the state: the answer may not depend on them.    *)
(* Functions without exact values (exp, erf, ...) are uninterpreted: what     *)
(* they give for an argument is fixed the first time it is seen.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES top, env, par, fns, seen, res
vars == <<top, env, par, fns, seen, res>>
\* top: topology of the region          env: name -> [cls, vals] or [cls, ast]
\* par: parameter -> number             fns: user function -> [n, ast]
\* seen: <<function, arguments, precision>> -> value

BadNum == -999999999
Bads(S) == BadNum \in S
B2N(b) == IF b THEN 1 ELSE 0
Size(cls) == CASE cls = "node" -> top.nn [] cls = "edge" -> Len(top.edges) [] cls = "elem" -> Len(top.elems)

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(x, y) == IF x <= y THEN x ELSE y
Max2(x, y) == IF x >= y THEN x ELSE y
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
\* exact quotients only: others are not driven
Div(x, y) == IF y = 0 THEN BadNum ELSE IF y < 0 THEN (-x) \div (-y) ELSE x \div y

Op(k, v) ==
  IF \E i \in DOMAIN v : v[i] = BadNum THEN BadNum
  ELSE CASE k = "neg" -> -v[1]
    [] k = "-" -> v[1] - v[2]
    [] k = "/" -> Div(v[1], v[2])
    [] k = "pow" -> Pow(v[1], v[2])
    [] k = "==" -> B2N(v[1] = v[2])
    [] k = "!=" -> B2N(v[1] # v[2])
    [] k = "<" -> B2N(v[1] < v[2])
    [] k = "<=" -> B2N(v[1] <= v[2])
    [] k = ">" -> B2N(v[1] > v[2])
    [] k = ">=" -> B2N(v[1] >= v[2])
    [] k = "&&" -> B2N(v[1] # 0 /\ v[2] # 0)
    [] k = "||" -> B2N(v[1] # 0 \/ v[2] # 0)
    [] k = "!" -> B2N(v[1] = 0)
    [] k = "abs" -> Abs(v[1])
    [] k = "sgn" -> IF v[1] >= 0 THEN 1 ELSE -1
    [] k = "step" -> B2N(v[1] >= 0)
    [] k = "min" -> Min2(v[1], v[2])
    [] k = "max" -> Max2(v[1], v[2])
    [] k = "ifelse" -> IF v[1] # 0 THEN v[2] ELSE v[3]
    [] k = "if" -> IF v[1] # 0 THEN v[2] ELSE 0
    [] k = "kahan3" -> v[1] + v[2] + v[3]
    [] k = "kahan4" -> v[1] + v[2] + v[3] + v[4]
    [] k = "dot2d" -> v[1] * v[3] + v[2] * v[4]

\* ---------------------------------------------------------------------------
RECURSIVE At(_, _, _, _), ModelAt(_, _, _), Over(_, _, _, _), SumFrom(_, _, _), TimesFrom(_, _, _)
SumFrom(v, i, acc) == IF i > Len(v) THEN acc
                      ELSE IF v[i] = BadNum THEN BadNum ELSE SumFrom(v, i + 1, acc + v[i])
TimesFrom(v, i, acc) == IF i > Len(v) THEN acc
                        ELSE IF v[i] = BadNum THEN BadNum ELSE TimesFrom(v, i + 1, acc * v[i])
\* over all locations of the class the argument lives on
Over(k, a, cls, i) ==
  IF i = 1 THEN At(a, cls, 1, <<>>)
  ELSE LET x == Over(k, a, cls, i - 1) y == At(a, cls, i, <<>>) IN
       IF Bads({x, y}) THEN BadNum
       ELSE CASE k = "vec_sum" -> x + y [] k = "vec_max" -> Max2(x, y) [] k = "vec_min" -> Min2(x, y)

\* the value of expression a at location i of class cls; args: of a user function
At(a, cls, i, args) ==
  CASE a.k = "n" -> a.v
    [] a.k = "arg" -> args[a.v]
    [] a.k = "par" -> par[a.n]
    [] a.k = "m" -> ModelAt(a.n, cls, i)
    \* the node model at an end of the edge, or of the element's edge
    [] a.k = "end" -> LET e == IF cls = "elem" THEN top.elems[i][1] ELSE i
                      IN ModelAt(a.n, "node", top.edges[e][a.w])
    \* the node model at a node of the element that is not on this edge
    [] a.k = "opp" -> ModelAt(a.n, "node", top.elems[i][a.w])
    [] a.k = "vec" -> Over(a.f, a.a[1], a.cls, Size(a.cls))
    [] a.k = "call" -> LET v == [j \in DOMAIN a.a |-> At(a.a[j], cls, i, args)]
                       IN At(fns[a.f].ast, cls, i, v)
    [] a.k = "+" -> SumFrom([j \in DOMAIN a.a |-> At(a.a[j], cls, i, args)], 1, 0)
    [] a.k = "*" -> TimesFrom([j \in DOMAIN a.a |-> At(a.a[j], cls, i, args)], 1, 1)
    [] OTHER -> Op(a.k, [j \in DOMAIN a.a |-> At(a.a[j], cls, i, args)])
ModelAt(n, cls, i) ==
  LET m == env[n] IN
  CASE m.cls = "edge" /\ cls = "elem" -> ModelAt(n, "edge", top.elems[i][1])
    [] "vals" \in DOMAIN m -> m.vals[i]
    [] OTHER -> At(m.ast, cls, i, <<>>)

Values(a, cls) == [i \in 1..Size(cls) |-> At(a, cls, i, <<>>)]
Reply(ok, vals) == res' = [ok |-> ok, vals |-> vals]
NoFcn == [x \in {} |-> 0]

Init == top = [nn |-> 0, edges |-> <<>>, elems |-> <<>>] /\ env = NoFcn /\ par = NoFcn /\ fns = NoFcn
        /\ seen = NoFcn /\ res = [ok |-> TRUE, vals |-> <<>>]
\* what the functions give is remembered across devices
Reset == /\ top' = [nn |-> 0, edges |-> <<>>, elems |-> <<>>] /\ env' = NoFcn /\ par' = NoFcn /\ fns' = NoFcn
         /\ UNCHANGED seen /\ Reply(TRUE, <<>>)
Device(T) == top' = T /\ env' = NoFcn /\ UNCHANGED <<par, fns, seen>> /\ Reply(TRUE, <<>>)
SetPar(n, v) == par' = (n :> v) @@ par /\ UNCHANGED <<top, env, fns, seen>> /\ Reply(TRUE, <<>>)
Function(f, n, ast) == fns' = (f :> [n |-> n, ast |-> ast]) @@ fns /\ UNCHANGED <<top, env, par, seen>> /\ Reply(TRUE, <<>>)
SetVals(n, cls, v) == env' = (n :> [cls |-> cls, vals |-> v]) @@ env /\ UNCHANGED <<top, par, fns, seen>> /\ Reply(TRUE, <<>>)
Define(n, cls, a) == env' = (n :> [cls |-> cls, ast |-> a]) @@ env /\ UNCHANGED <<top, par, fns, seen>> /\ Reply(TRUE, <<>>)
\* threads and precision
Setting == UNCHANGED <<top, env, par, fns, seen>> /\ Reply(TRUE, <<>>)

ReadExpr(n) ==
  LET m == env[n]
      v == IF "vals" \in DOMAIN m THEN m.vals ELSE Values(m.ast, m.cls)
      ok == \A i \in DOMAIN v : v[i] # BadNum
  IN UNCHANGED <<top, env, par, fns, seen>> /\ Reply(ok, IF ok THEN v ELSE <<>>)

\* an uninterpreted function of exact arguments: got is what the code answered
ReadFn(n, prec, got) ==
  LET m == env[n]
      A == [i \in 1..Size(m.cls) |-> [j \in DOMAIN m.ast.a |-> At(m.ast.a[j], m.cls, i, <<>>)]]
      K(i) == <<m.ast.f, A[i], prec>>
      new == [k \in {K(i) : i \in DOMAIN A} \ DOMAIN seen |-> got[CHOOSE i \in DOMAIN A : K(i) = k]]
  IN /\ Len(got) = Size(m.cls)
     /\ seen' = new @@ seen
     /\ UNCHANGED <<top, env, par, fns>>
     /\ Reply(TRUE, [i \in DOMAIN A |-> seen'[K(i)]])
=============================================================================
