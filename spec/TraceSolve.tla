------------------------------ MODULE TraceSolve -----------------------------
(* What a session with the solver did, against Solve.                          *)
EXTENDS Solve, TraceBase
VARIABLE l
T == INSTANCE TraceSystem
avars == <<svars, nvars, res, l>>
TraceInit == T!SystemInit /\ SolveInit /\ l = 1

\* what other commands leave of the contacts' currents and charges
Forget(e) == cc' = [k \in {x \in DOMAIN cc : /\ <<x[1], x[2]>> \in DOMAIN ceqs' /\ (<<x[1], x[2]>> \in DOMAIN ceqs' => x[3] \in DOMAIN ceqs'[<<x[1], x[2]>>])
                                             /\ ~(e.op = "contact_equation" /\ x = <<e.device, e.contact, e.name>>)} |-> cc[k]]
Step(e) ==
  CASE e.op = "solve"   -> Begin(e.o, e.now)
    [] e.op = "init"    -> Start(e.n, e.transpose, e.num, e.cnum, e.ans)
    [] e.op = "look"    -> Look(e.now)
    [] e.op = "factor"  -> Factor(e.m, e.same, e.complex, e.ans) /\ e.owner
    [] e.op = "answer"  -> Answer(e.b, e.complex, e.ans, e.x)
    [] e.op = "finish"  -> Finish(e.ok, e.info) /\ ~Has(e, "extra")
    [] e.op = "settled" -> Settled(e.now)
    [] e.op = "swap"    -> Swap(e.name, e.eq)
    [] e.op = "precision" -> Precision(e.to)
    [] e.op = "initial_condition" -> InitialCondition(e.i, e.q) /\ T!Same(e)
    [] e.op = "reading" -> Reading(e.device, e.contact, e.name, e.what) /\ UNCHANGED nvars /\ T!Same(e)
    [] e.op = "reset"   -> ResetSystem /\ nw = Idle /\ nw' = Idle /\ hist' = [x \in BOOLEAN |-> NoHist] /\ ext' = FALSE /\ cc' = Free0
    [] OTHER            -> nw = Idle /\ T!Step(e) /\ UNCHANGED <<nw, hist, ext>> /\ Forget(e)

TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_avars
TraceInv == T!TraceInv
=============================================================================
