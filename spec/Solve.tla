-------------------------------- MODULE Solve --------------------------------
(* Solving the assembled system: the Newton iteration with its limits, the     *)
(* linear solver it asks, steady state and time integration with their         *)
(* history, small-signal and noise analysis.                                   *)
(*                                                                             *)
(* A value of an unknown is carried as its residue v and as a = round(1024 v): *)
(* sizes are compared with a, give or take t (0: a is exact).                  *)
EXTENDS System

VARIABLES nw,     \* the solve under way
          hist,   \* [extended precision -> remembered charges q and currents i: last, before, ...]
          ext,    \* whether solves are done in extended precision
          cc      \* [<<device, contact, equation>> -> charge and current of the last accepted solve]
nvars == <<nw, hist, ext, cc>>
Idle == [st |-> "idle"]
NoHist == [q |-> <<<<>>, <<>>, <<>>>>, i |-> <<<<>>, <<>>, <<>>>>]
SolveInit == nw = Idle /\ hist = [x \in BOOLEAN |-> NoHist] /\ ext = FALSE /\ cc = Free0
Unit == 1024
UnitInv == FInv(Unit)
Abs(x) == IF x < 0 THEN -x ELSE x
Lesser(x, y) == IF x < y THEN x ELSE y
Greater(x, y) == IF x > y THEN x ELSE y

\* ------------------------------------------------------------- the methods ----
Steady == {"dc", "transient_dc"}
Stepping == {"transient_bdf1", "transient_tr", "transient_bdf2"}
Linear == {"ac", "noise"}
\* a solution x of a step has b0 I(x) + a0 Q(x) + a1 Q0 + a2 Q1 + b1 I0 = 0 with
\* Q0, Q1, I0 of the last steps; d: the step of the projection Q0 - d I0
Method(o) ==
  LET h == FMul(o.gamma, o.tdelta) d == FMul(FSub(1, o.gamma), o.tdelta) IN
  CASE o.type = "transient_bdf1" -> [a0 |-> FInv(h), a1 |-> FNeg(FInv(h)), a2 |-> 0, b1 |-> 0, d |-> h]
    [] o.type = "transient_tr"   -> [a0 |-> FMul(2, FInv(h)), a1 |-> FNeg(FMul(2, FInv(h))), a2 |-> 0, b1 |-> 1, d |-> h]
    [] o.type = "transient_bdf2" -> [a0 |-> FMul(FSub(2, o.gamma), FInv(d)), a1 |-> FNeg(FInv(FMul(o.gamma, d))),
                                     a2 |-> FMul(FSub(1, o.gamma), FInv(h)), b1 |-> 0, d |-> d]
    [] OTHER -> [a0 |-> 0, a1 |-> 0, a2 |-> 0, b1 |-> 0, d |-> 0]
H == hist[ext]
\* what a step needs is there, and fits
HistoryFor(o, n) ==
  o.type \in Stepping => /\ Len(H.q[1]) = n /\ Len(H.i[1]) = n
                         /\ o.type = "transient_bdf2" => Len(H.q[2]) = n
Known3(v) == v # <<>> => v[1] # -1          \* <<-1, ..>>: of known length only
Scale(c, v) == [i \in DOMAIN v |-> FMul(c, v[i])]
Add(v, w) == [i \in DOMAIN v |-> FAdd(v[i], w[i])]
Zeros(n) == [i \in 1..n |-> 0]
Remembered(o, n) ==
  LET m == Method(o) IN
  IF o.type \notin Stepping THEN Zeros(n)
  ELSE Add(Add(Scale(m.a1, H.q[1]), IF m.a2 = 0 THEN Zeros(n) ELSE Scale(m.a2, H.q[2])),
           IF m.b1 = 0 THEN Zeros(n) ELSE Scale(m.b1, H.i[1]))
RememberedKnown(o) == o.type \in Stepping => Known3(H.q[1]) /\ Known3(H.q[2]) /\ Known3(H.i[1])

\* ------------------------------------------------------- the limits ------------
Options == Steady \cup Stepping \cup Linear
Valid(o) == /\ o.type \in Options
            /\ o.type \in Stepping => o.tdelta # 0 /\ o.gamma # 0
            /\ o.info => o.type \notin Linear
            /\ o.solver = "direct"
Output(o) == o.type = "noise" => Known(o.out) /\ (Known(o.out) => Real(o.out) \in CNodes)
Solutions(o) == CASE o.type = "ac" -> {"dcop", "ssac_real", "ssac_imag"}
                  [] o.type = "noise" -> {"dcop", "noise_" \o o.out \o "_real", "noise_" \o o.out \o "_imag"}
                  [] OTHER -> {"dcop"}
\* intervals in 1/4096 (relative) and 1/Unit (absolute); Big and beyond: any size
Big == 1048576
Inf == 1073741824
IV(l, h) == [lo |-> Lesser(l, Big), hi |-> IF h >= Big THEN Inf ELSE h]
Plus(x, y) == IV(x.lo + y.lo, Lesser(x.hi, Big) + Lesser(y.hi, Big))
Most(x, y) == [lo |-> Greater(x.lo, y.lo), hi |-> Greater(x.hi, y.hi)]
None0 == [lo |-> 0, hi |-> 0]
Size1(u, t) == [lo |-> Greater(Abs(u) - t, 0), hi |-> Abs(u) + t]
Ratio(u, tu, n, tn) ==
  LET x == Size1(u, tu) y == Size1(n, tn) IN
  IF x.hi = 0 THEN None0
  ELSE IV(IF x.lo = 0 THEN 0 ELSE IF y.hi = 0 THEN Big ELSE Greater((x.lo * 4096) \div y.hi - 1, 0),
          IF y.lo = 0 THEN Big ELSE (x.hi * 4096) \div y.lo + 1)
\* what a comparison may come to
Below(x, lim) == IF x.hi < lim THEN {TRUE} ELSE IF x.lo >= lim THEN {FALSE} ELSE BOOLEAN
Above(x, lim) == IF x.lo > lim THEN {TRUE} ELSE IF x.hi <= lim THEN {FALSE} ELSE BOOLEAN
Over(x, y) == IF x.lo > y.hi THEN {TRUE} ELSE IF x.hi <= y.lo THEN {FALSE} ELSE BOOLEAN
And2(S, T) == {a /\ b : a \in S, b \in T}
Or2(S, T) == {a \/ b : a \in S, b \in T}

\* ------------------------------------------------------------- one update ------
Exact(a, v) == \A i \in DOMAIN a : FMul(Norm(a[i]), UnitInv) = v[i]
\* the damped update is 0.0259 ln(1 + |u| / 0.0259) beyond 0.0259; dm has it
Small == 26
New1(upd, v, a, t, pos, xr, xa, dm) ==
  CASE upd = "default" \/ (upd = "log_damp" /\ Abs(xa) <= Small) \/ (upd = "positive" /\ pos /\ (xa >= 0 \/ a + xa - t > 0))
         -> [v |-> IF t = 0 THEN FAdd(v, xr) ELSE -1, a |-> a + xa, t |-> t, pos |-> upd = "positive", u |-> xa, tu |-> 0, bad |-> FALSE]
    [] upd = "log_damp" -> [v |-> -1, a |-> a + dm, t |-> t + 1, pos |-> FALSE, u |-> dm, tu |-> 1, bad |-> FALSE]
    \* stays positive
    [] pos /\ a + xa + t <= 0 -> [v |-> -1, a |-> a \div 1000, t |-> 1, pos |-> TRUE, u |-> (a \div 1000) - a, tu |-> 1 + t, bad |-> FALSE]
    \* by one or the other
    [] pos -> [v |-> -1, a |-> 0, t |-> (Abs(a) \div 1000) + 2 + t, pos |-> TRUE, u |-> xa, tu |-> (Abs(a) \div 1000) + 2 + t, bad |-> FALSE]
    \* was not
    [] OTHER -> [v |-> -1, a |-> a, t |-> t, pos |-> FALSE, u |-> 0, tu |-> 0, bad |-> TRUE]
\* equation i of region dr
NewVar(dr, i, x) ==
  LET q == eqs[dr][i] V == mods[dr][q.var].vals o == nw.ap[dr][q.var] num == nw.num[<<dr[1], dr[2], q.name>>] IN
  Deep([k \in DOMAIN V |-> New1(q.upd, V[k], o.a[k], o.t, o.pos[k], x.r[num[k] + 1], x.a[num[k] + 1], x.d[num[k] + 1])])
NewCir(x) == Deep([n \in CNodes |-> New1("default", sol["dcop"][n], nw.cap.a[n], nw.cap.t, FALSE,
                                    x.r[nw.cnum[n] + 1], x.a[nw.cnum[n] + 1], 0)])
MostOf(S) == FoldLeft(Most, None0, SetToSeq(S))
\* where the greatest of them can be (the first when there is nothing), from 0
Where(f) == LET m == MostOf({f[k] : k \in DOMAIN f}) IN {k - 1 : k \in {x \in DOMAIN f : f[x].hi >= m.lo /\ (m.lo = 0 => f[x].hi > 0 \/ x = 1)}}
EqErr(w) == [reln |-> Where(Deep([k \in DOMAIN w |-> Ratio(w[k].u, w[k].tu, w[k].a, w[k].t)])),
             absn |-> Where(Deep([k \in DOMAIN w |-> Size1(w[k].u, w[k].tu)])),
             rel |-> MostOf({Ratio(w[k].u, w[k].tu, w[k].a, w[k].t) : k \in DOMAIN w}),
             abs |-> MostOf({Size1(w[k].u, w[k].tu) : k \in DOMAIN w})]
SumErr(s) == [rel |-> FoldLeft(LAMBDA a, e : Plus(a, e.rel), None0, s), abs |-> FoldLeft(LAMBDA a, e : Plus(a, e.abs), None0, s)]
\* errors of an iteration
Errors(x) ==
  LET eq == Deep([dr \in DOMAIN eqs |-> [i \in DOMAIN eqs[dr] |-> EqErr(NewVar(dr, i, x))]])
      reg == Deep([dr \in DOMAIN eqs |-> SumErr(eq[dr])])
      of(d) == {dr \in DOMAIN eqs : dr[1] = d}
      c == NewCir(x) IN
  [eq |-> [dr \in DOMAIN eqs |-> [n \in Names2(dr) |-> eq[dr][At(dr, n)]]],
   reg |-> reg,
   dev |-> [d \in DOMAIN dev |-> [rel |-> FoldLeft(LAMBDA a, dr : Plus(a, reg[dr].rel), None0, SetToSeq(of(d))),
                                  abs |-> MostOf({reg[dr].abs : dr \in of(d)})]],
   cir |-> IF cn = CFree THEN [rel |-> None0, abs |-> None0]
           ELSE [rel |-> MostOf({Ratio(c[n].u, c[n].tu, c[n].a, c[n].t) : n \in CNodes}),
                 abs |-> FoldLeft(LAMBDA a, n : Plus(a, Size1(c[n].u, c[n].tu)), None0, SetToSeq(CNodes))]]
\* devices in the order they are looked at: <<divergence count, last error>> possible
RECURSIVE Divergence(_, _, _, _, _)
Divergence(o, er, ds, count, last) ==
  IF ds = <<>> THEN count
  ELSE LET e == er.dev[ds[1]]
           worse == Or2(And2(Above(e.rel, o.rel), Over(e.rel, last.rel)), And2(Above(e.abs, o.abs), Over(e.abs, last.abs))) IN
       Divergence(o, er, Tail(ds), UNION {{IF b THEN k + 1 ELSE 0 : k \in count} : b \in worse}, e)
Converged(o, er) ==
  LET all == {er.dev[d] : d \in DOMAIN dev} \cup (IF cn = CFree THEN {} ELSE {er.cir}) IN
  FoldLeft(LAMBDA S, e : And2(S, And2(Below(e.rel, o.rel), Below(e.abs, o.abs))), {TRUE}, SetToSeq(all))
TooFar(o, er) ==
  IF o.max = -1 THEN {FALSE}
  ELSE FoldLeft(LAMBDA S, e : Or2(S, Above(e.abs, o.max)), {FALSE},
                SetToSeq({er.dev[d] : d \in DOMAIN dev} \cup (IF cn = CFree THEN {} ELSE {er.cir})))

\* ------------------------------------------------------------- the commands ----
\* what the process shows of its unknowns: now.dev[d][r][var] = [v, a, pos], now.cir[node] = [v, a]
SeenOk(now) ==
  /\ \A dr \in DOMAIN eqs : \A i \in DOMAIN eqs[dr] :
       mods[dr][eqs[dr][i].var].vals = now.dev[dr[1]][dr[2]][eqs[dr][i].var].v
  /\ "dcop" \in DOMAIN sol => \A n \in CNodes : sol["dcop"][n] = now.cir[n].v
SizesOf(now) ==
  [dr \in DOMAIN eqs |-> [v \in Vars(dr) |-> LET x == now.dev[dr[1]][dr[2]][v] IN
                            [a |-> x.a, t |-> IF Exact(x.a, x.v) THEN 0 ELSE 1, pos |-> x.pos]]]
CSizesOf(now) ==
  LET a == [n \in CNodes |-> now.cir[n].a] v == [n \in CNodes |-> now.cir[n].v] IN
  [a |-> a, t |-> IF \A n \in CNodes : FMul(Norm(a[n]), UnitInv) = v[n] THEN 0 ELSE 1]
AllExact(ap, cap) == cap.t = 0 /\ \A dr \in DOMAIN ap : \A v \in DOMAIN ap[dr] : ap[dr][v].t = 0

Begin(o, now) ==
  /\ nw = Idle
  /\ IF ~Valid(o) \/ ~Output(o) THEN nw' = [st |-> "fail", o |-> o, iter |-> 0, its |-> <<>>, mods |-> mods, sol |-> sol, backup |-> FALSE]
                                     /\ UNCHANGED <<cvars, par>>
     ELSE /\ IF cn = CFree THEN UNCHANGED <<cvars, par>>
             ELSE Prepare(Solutions(o)) /\ Mirror
          /\ nw' = [st |-> "begun", o |-> o, iter |-> 0, its |-> <<>>, mods |-> mods, sol |-> sol', backup |-> FALSE,
                    ap |-> SizesOf(now), cap |-> IF cn = CFree THEN [a |-> Free0, t |-> 0] ELSE CSizesOf(now),
                    exact |-> TRUE, conv |-> FALSE, count |-> 0, far |-> FALSE,
                    last |-> [rel |-> None0, abs |-> None0], pat |-> <<>>, x |-> <<>>]
  /\ SeenOk(now)
  /\ UNCHANGED <<top, mods, evars, hist, ext, cc>> /\ Done

\* what a solve does to the circuit's list of solutions before it iterates
Backup == sol' = IF cn = CFree \/ nw.o.type \in Linear THEN sol ELSE ("dcop_prev" :> sol["dcop"]) @@ sol
\* the solver is asked to initialize; ans: the format it wants, or "bad"
Start(n, transpose, num, cnum, ans) ==
  /\ nw.st = "begun"
  /\ n = Order /\ transpose = (nw.o.type = "noise")
  /\ LET N == [k \in EqKeys |-> num[k[1]][k[2]][k[3]]] IN
     /\ Numbering(N, cnum)
     /\ LET bad == ans \notin {"csc", "csr"} \/ ~HistoryFor(nw.o, n) IN
        /\ nw' = [nw EXCEPT !.st = IF bad THEN "fail" ELSE "load", !.backup = ans # "bad"]
                 @@ [num |-> N, cnum |-> cnum, n |-> n, format |-> ans]
        /\ IF ans = "bad" THEN UNCHANGED sol ELSE Backup
  /\ UNCHANGED <<top, mods, par, cn, al, el, lock, evars, hist, ext, cc>> /\ Done

\* the process shows its unknowns again: those the specification could work out are
\* as expected, the others (damped) nearly so
Near(x, y, t) == Abs(x - y) <= t
Look(now) ==
  /\ nw.st \in {"load", "fail"}
  /\ \A dr \in DOMAIN eqs : \A i \in DOMAIN eqs[dr] :
       LET q == eqs[dr][i] s == now.dev[dr[1]][dr[2]][q.var] V == mods[dr][q.var].vals o == nw.ap[dr][q.var] IN
       /\ \A k \in DOMAIN V : IF V[k] # -1 THEN s.v[k] = V[k] ELSE Near(s.a[k], o.a[k], o.t + 1)
       /\ \A k \in DOMAIN V : o.pos[k] /\ nw.iter > 0 => s.pos[k]
  /\ "dcop" \in DOMAIN sol => \A n \in CNodes : sol["dcop"][n] = now.cir[n].v
  /\ nw' = [nw EXCEPT !.ap = SizesOf(now), !.exact = AllExact(SizesOf(now), nw.cap)]
  /\ mods' = [dr \in DOMAIN mods |->
                [n \in DOMAIN mods[dr] |->
                   IF dr \in DOMAIN eqs /\ (dr \in DOMAIN eqs => n \in Vars(dr))
                   THEN [mods[dr][n] EXCEPT !.vals = now.dev[dr[1]][dr[2]][n].v] ELSE mods[dr][n]]]
  /\ UNCHANGED <<top, par, cvars, evars, hist, ext, cc>> /\ Done

\* ... to factor: the matrix, in the format it asked for, of what the unknowns are now
MoveOf == CanonMove(nw.num, nw.n)
Ambiguous == LET M == Range0(Deep(Moves(nw.num))) IN \E a, b \in M : a # b /\ a.at = b.at
Rows == LET m == MoveOf IN Deep([i \in 1..nw.n |-> m[i].to])
Copies == LET m == MoveOf IN Deep([i \in 1..nw.n |-> m[i].copy])
Load1(time) == Loaded(time, nw.num, nw.cnum, nw.n, Rows, Copies)
Load(time) == LET s == Load1(FALSE) IN IF ~time \/ s.st # "ok" THEN s ELSE Load1(TRUE)
May == /\ nw.st = "load" /\ nw.iter < nw.o.iters /\ ~nw.conv /\ nw.count < nw.o.div /\ ~nw.far
       /\ nw.o.type \in Linear => nw.iter = 0
Scaled(c, j) == [x \in DOMAIN j |-> [j[x] EXCEPT ![3] = FMul(c, @)]]
ScaledF(c, f) == [x \in DOMAIN f |-> [f[x] EXCEPT ![2] = FMul(c, @)]]
ByRow == nw.format = "csr"
\* a steady state does not need the time derivatives
Moving == nw.o.type \in Linear \/ Method(nw.o).a0 # 0
Nothing == OK(<<>>, <<>>)
Factor(m, same, complex, ans) ==
  /\ May
  /\ complex = (nw.o.type \in Linear)
  /\ LET s == Load(FALSE) t == IF Moving THEN Load(TRUE) ELSE Nothing k == Method(nw.o) pat == <<m.ap, m.ai>> IN
     \* (linear: the right hand sides are not worked out, and what is wrong with them
     \* need not be noticed)
     /\ complex \/ (s.st # "err" /\ t.st # "err")
     /\ (s.st = "ok" /\ t.st = "ok" /\ nw.exact /\ ~Ambiguous) =>
          IF complex
          THEN /\ Compressed(m.ap, m.ai, m.re, MatrixOf(s.j, nw.n), nw.n, ByRow)
               /\ Compressed(m.ap, m.ai, m.im, MatrixOf(Scaled(nw.o.omega, t.j), nw.n), nw.n, ByRow)
          ELSE Compressed(m.ap, m.ai, m.re, MatrixOf(s.j \o (IF k.a0 = 0 THEN <<>> ELSE Scaled(k.a0, t.j)), nw.n), nw.n, ByRow)
     /\ same = (nw.iter > 0 /\ nw.iter >= nw.o.sym /\ pat = nw.pat)
     /\ nw' = [nw EXCEPT !.st = IF ans THEN "factored" ELSE "fail", !.pat = pat]
  /\ UNCHANGED <<svars, hist, ext, cc>> /\ Done

\* small-signal sources: at the branch of each voltage source
AcRhs(part) == [i \in 1..nw.n |->
   LET S == {e \in AcSources : nw.cnum[e \o ".I"] = i - 1} IN
   IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN el[e].p[part]]
UnitAt(n) == [i \in 1..nw.n |-> IF i = n + 1 THEN 1 ELSE 0]

\* ... to solve: the answer is the update
Apply(x) ==
  /\ LET er == Deep(Errors(x))
         new == Deep([dr \in DOMAIN eqs |-> [i \in DOMAIN eqs[dr] |-> NewVar(dr, i, x)]])
         c == NewCir(x)
         bad == \E dr \in DOMAIN eqs : \E i \in DOMAIN eqs[dr] : \E k \in DOMAIN new[dr][i] : new[dr][i][k].bad
         ap2 == Deep([dr \in DOMAIN eqs |-> [v \in Vars(dr) |->
                   LET w == new[dr][At(dr, EqOf(dr, v))] IN
                   [a |-> [k \in DOMAIN w |-> w[k].a], t |-> FoldLeft(Greater, 0, [k \in DOMAIN w |-> w[k].t]),
                    pos |-> [k \in DOMAIN w |-> w[k].pos]]]])
         cap2 == IF cn = CFree THEN nw.cap
                 ELSE [a |-> [n \in CNodes |-> c[n].a], t |-> FoldLeft(Greater, 0, SetToSeq({c[n].t : n \in CNodes}))] IN
     IF bad
     THEN /\ nw' = [nw EXCEPT !.st = "fail"] /\ UNCHANGED <<mods, par, cvars>>
     ELSE /\ mods' = [dr \in DOMAIN mods |->
                        [n \in DOMAIN mods[dr] |->
                           IF dr \in DOMAIN eqs /\ (dr \in DOMAIN eqs => n \in Vars(dr))
                           THEN [mods[dr][n] EXCEPT !.vals = LET w == new[dr][At(dr, EqOf(dr, n))] IN [k \in DOMAIN w |-> w[k].v]]
                           ELSE mods[dr][n]]]
          /\ sol' = IF cn = CFree THEN sol ELSE [sol EXCEPT !["dcop"] = [n \in CNodes |-> c[n].v]]
          /\ UNCHANGED <<cn, al, el, lock>> /\ Mirror
          /\ \E cv \in Converged(nw.o, er), k \in Divergence(nw.o, er, nw.o.order, {nw.count}, nw.last), f \in TooFar(nw.o, er) :
               nw' = [nw EXCEPT !.st = "load", !.iter = @ + 1, !.its = Append(@, er), !.ap = ap2, !.cap = cap2,
                                !.exact = AllExact(ap2, cap2), !.conv = cv, !.count = k, !.far = f,
                                !.last = IF nw.o.order = <<>> THEN @ ELSE er.dev[nw.o.order[Len(nw.o.order)]]]
  /\ UNCHANGED <<top, evars, hist, ext, cc>> /\ Done
Answer(b, complex, ans, x) ==
  /\ nw.st = "factored"
  /\ complex = (nw.o.type \in Linear)
  /\ LET s == Load(FALSE) t == IF Moving THEN Load(TRUE) ELSE Nothing k == Method(nw.o)
         known == s.st = "ok" /\ t.st = "ok" /\ nw.exact /\ ~Ambiguous /\ RememberedKnown(nw.o) IN
     CASE nw.o.type = "ac" -> b.re = AcRhs("acreal") /\ b.im = AcRhs("acimag")
       [] nw.o.type = "noise" -> b.re = UnitAt(nw.cnum[nw.o.out]) /\ b.im = Zeros(nw.n)
       [] OTHER -> known => b.re = Add(RhsOf(s.f \o (IF k.a0 = 0 THEN <<>> ELSE ScaledF(k.a0, t.f)), nw.n), Remembered(nw.o, nw.n))
  /\ IF ~ans THEN nw' = [nw EXCEPT !.st = "fail"] /\ UNCHANGED <<svars, hist, ext, cc>> /\ Done
     ELSE IF complex THEN nw' = [nw EXCEPT !.st = "load", !.iter = 1, !.conv = TRUE, !.x = x] /\ UNCHANGED <<svars, hist, ext, cc>> /\ Done
     ELSE Apply(x)

\* ----------------------------------------------------------- how it ends -------
Restore ==
  /\ mods' = IF nw.st = "fail" /\ nw.iter = 0 THEN mods
             ELSE [dr \in DOMAIN mods |-> [n \in DOMAIN mods[dr] |->
                     IF dr \in DOMAIN eqs /\ (dr \in DOMAIN eqs => n \in Vars(dr)) THEN nw.mods[dr][n] ELSE mods[dr][n]]]
  /\ sol' = IF "dcop" \in DOMAIN nw.sol THEN [sol EXCEPT !["dcop"] = nw.sol["dcop"]] ELSE sol
  /\ UNCHANGED <<cn, al, el, lock>> /\ Mirror
\* a contact's current and charge: all of what its own nodes have of the terms,
\* whatever the derivatives
Amount(dr, t, only) ==
  LET T == top[dr] n == Places(T, t.shape) IN
  IF ~Is(dr, t.weight, t.shape) \/ ~Is(dr, t.model, t.shape) THEN [st |-> "err", v |-> -1]
  ELSE LET f == Weighted(Value(dr, t.weight, {}), Value(dr, t.model, {})) IN
       IF f.t = "bad" THEN [st |-> "err", v |-> -1]
       ELSE IF f.t = "any" THEN [st |-> "any", v |-> -1]
       ELSE LET spots == SetToSeq({x \in (1..n) \X {1, 2} : x[2] \in DOMAIN EndsOf(T, t.shape, x[1]) /\ EndsOf(T, t.shape, x[1])[x[2]] \in only}) IN
            [st |-> "ok", v |-> FoldLeft(LAMBDA a, x : FAdd(a, FMul(Norm(t.s[x[2]]), f.v[x[1]])), 0, spots)]
Total(dr, ts, only) ==
  LET ps == [x \in DOMAIN ts |-> Amount(dr, ts[x], only)] st == {ps[x].st : x \in DOMAIN ps} IN
  IF "err" \in st THEN [st |-> "err", v |-> -1]
  ELSE IF "any" \in st THEN [st |-> "any", v |-> -1]
  ELSE [st |-> "ok", v |-> FoldLeft(LAMBDA a, p : FAdd(a, p.v), 0, ps)]
Terminal(k) ==
  LET d == k[1] c == k[2] n == k[3] dr == <<d, dev[d].cons[c].reg>> q == ceqs[<<d, c>>][n] only == ContactNodes(d, c, n) IN
  [cur |-> Total(dr, Terms1(top[dr], Current(dr, q)), only), chg |-> Total(dr, Terms1(top[dr], Charge(dr, q)), only)]
Terminals == Deep([k \in CKeys |-> Terminal(k)])
TermSt == LET T == Terminals s == {T[k].cur.st : k \in CKeys} \cup {T[k].chg.st : k \in CKeys} IN
          IF "err" \in s THEN "err" ELSE IF "any" \in s THEN "any" ELSE "ok"
Or1(x) == IF nw.exact THEN x.v ELSE -1
Unknown(n) == [i \in 1..n |-> -1]
Vec(time) == LET s == Load(time) IN IF s.st = "ok" /\ nw.exact /\ ~Ambiguous THEN RhsOf(s.f, nw.n) ELSE Unknown(nw.n)
Push(x, s) == <<x, s[1], s[2]>>
\* whether the charges are near enough to their projection
Projected ==
  LET q == Vec(TRUE) p == Add(H.q[1], Scale(FNeg(Method(nw.o).d), H.i[1])) IN
  CASE nw.o.type \notin Stepping -> {TRUE}
    [] nw.o.qerr = "any" -> {TRUE}
    [] nw.o.qerr = "never" -> {FALSE}
    [] ~Known3(q) \/ ~Known3(H.q[1]) \/ ~Known3(H.i[1]) -> BOOLEAN
    [] OTHER -> {\A i \in DOMAIN q : q[i] = 0 \/ q[i] = p[i]}

\* what the report says: errors per iteration
Says(r, e) == r >= e.lo - 1 /\ (r <= e.hi + 1 \/ e.hi = Inf)
SaysBoth(r, e) == Says(r.rel, e.rel) /\ Says(r.abs, e.abs)
Truthful(info) ==
  /\ info.n = nw.n
  /\ Len(info.its) = nw.iter
  /\ \A i \in DOMAIN info.its :
       LET it == info.its[i] er == nw.its[i] IN
       /\ it.iteration = i - 1
       /\ {it.devs[x].name : x \in DOMAIN it.devs} = DOMAIN dev /\ Len(it.devs) = Cardinality(DOMAIN dev)
       /\ \A x \in DOMAIN it.devs : LET d == it.devs[x] IN
            /\ SaysBoth(d, er.dev[d.name])
            /\ {d.regs[y].name : y \in DOMAIN d.regs} = {dr[2] : dr \in {z \in DOMAIN eqs : z[1] = d.name}}
            /\ \A y \in DOMAIN d.regs : LET g == d.regs[y] dr == <<d.name, g.name>> IN
                 /\ SaysBoth(g, er.reg[dr])
                 /\ {g.eqs[z].name : z \in DOMAIN g.eqs} = Names2(dr) /\ Len(g.eqs) = Len(eqs[dr])
                 /\ \A z \in DOMAIN g.eqs : LET q == g.eqs[z] e == er.eq[dr][q.name] IN
                      SaysBoth(q, e) /\ q.reln \in e.reln /\ q.absn \in e.absn
       /\ (cn # CFree) = (it.cir # <<>>)
       /\ cn # CFree => SaysBoth(it.cir[1], er.cir)

Accept ==
  /\ IF nw.o.type = "dc" THEN UNCHANGED hist
     ELSE LET q == Vec(TRUE) i == Vec(FALSE) IN
          hist' = [hist EXCEPT ![ext] =
                     IF nw.o.type = "transient_dc" THEN [q |-> <<q, <<>>, <<>>>>, i |-> <<i, <<>>, <<>>>>]
                     ELSE [q |-> Push(q, @.q), i |-> Push(i, @.i)]]
  /\ LET T == Terminals IN cc' = [k \in CKeys |-> [cur |-> Or1(T[k].cur), chg |-> Or1(T[k].chg)]] @@ cc
  /\ UNCHANGED <<mods, par, cvars>>
\* the small-signal solution is kept besides the steady state
KeepAc ==
  /\ mods' = [dr \in DOMAIN mods |->
       IF dr \notin DOMAIN eqs THEN mods[dr]
       ELSE FoldLeft(LAMBDA f, q :
              LET v(p) == [k \in DOMAIN nw.num[<<dr[1], dr[2], q.name>>] |-> p[nw.num[<<dr[1], dr[2], q.name>>][k] + 1]] IN
              OneF(q.var \o "_Real", [cls |-> "node", kind |-> "sol", vals |-> v(nw.x.re)])
              @@ OneF(q.var \o "_Imag", [cls |-> "node", kind |-> "sol", vals |-> v(nw.x.im)]) @@ f, mods[dr], eqs[dr])]
  /\ sol' = IF cn = CFree THEN sol
            ELSE [sol EXCEPT !["ssac_real"] = [n \in CNodes |-> nw.x.re[nw.cnum[n] + 1]],
                             !["ssac_imag"] = [n \in CNodes |-> nw.x.im[nw.cnum[n] + 1]]]
\* a node whose row was dropped does not drive the output; one whose row also went
\* elsewhere drives it by that, or by both
KeepNoise ==
  /\ \E both \in (IF \E i \in DOMAIN Copies : Copies[i] = 1 THEN BOOLEAN ELSE {FALSE}) :
     mods' = [dr \in DOMAIN mods |->
       IF dr \notin DOMAIN eqs THEN mods[dr]
       ELSE FoldLeft(LAMBDA f, q :
              LET N == nw.num[<<dr[1], dr[2], q.name>>]
                  v(p) == [k \in DOMAIN N |-> LET r == Rows[N[k] + 1] IN
                             IF r = -1 THEN 0
                             ELSE IF both /\ Copies[N[k] + 1] = 1 THEN FAdd(p[r + 1], p[N[k] + 1]) ELSE p[r + 1]] IN
              OneF(nw.o.out \o "_" \o q.name \o "_real", [cls |-> "node", kind |-> "sol", vals |-> v(nw.x.re)])
              @@ OneF(nw.o.out \o "_" \o q.name \o "_imag", [cls |-> "node", kind |-> "sol", vals |-> v(nw.x.im)]) @@ f, mods[dr], eqs[dr])]
  /\ LET r == "noise_" \o nw.o.out \o "_real" i == "noise_" \o nw.o.out \o "_imag" IN
     sol' = [sol EXCEPT ![r] = [n \in CNodes |-> nw.x.re[nw.cnum[n] + 1]], ![i] = [n \in CNodes |-> nw.x.im[nw.cnum[n] + 1]]]

\* ok: whether the command says it converged; info: its report (<<>>: none)
Finish(ok, info) ==
  /\ nw.st \in {"begun", "load", "fail"}
  /\ LET lin == nw.o.type \in Linear
         \* charges are worked out at the end unless steady (the matrix is not, and
         \* what is wrong with it need not be noticed)
         st == IF nw.st = "begun" \/ nw.st = "fail" THEN "err"
               ELSE IF nw.o.type = "dc" THEN (IF nw.conv THEN "ok" ELSE Load(FALSE).st)
               ELSE LET x == Load(TRUE).st IN IF x = "err" /\ nw.iter > 0 THEN "any" ELSE x
         term == IF nw.st = "load" /\ ~lin /\ nw.conv THEN TermSt ELSE "ok"
         \* it could not even begin: nothing to assemble, or nothing to start from
         early == \/ nw.st = "begun" /\ ~HistoryFor(nw.o, Order)
                  \/ nw.st = "load" /\ st \in {"err", "any"}
         spent == nw.st = "load" /\ ~nw.conv /\ ~lin /\ (nw.iter >= nw.o.iters \/ nw.count >= nw.o.div \/ nw.far) IN
     /\ IF ok
        THEN /\ nw.st = "load" /\ nw.conv /\ st # "err" /\ term # "err"
             /\ lin \/ TRUE \in Projected
             /\ IF lin THEN UNCHANGED <<hist, cc, cn, al, el, lock, par>> /\ (IF nw.o.type = "ac" THEN KeepAc ELSE KeepNoise)
                ELSE Accept
        ELSE /\ \/ nw.st = "fail" \/ early \/ spent
                \/ nw.st = "load" /\ nw.conv /\ ~lin /\ (FALSE \in Projected \/ term \in {"err", "any"})
             /\ UNCHANGED hist
             \* the currents and charges of some contacts may be there already
             /\ cc' = IF nw.st = "load" /\ nw.conv /\ ~lin /\ term # "ok" THEN [k \in CKeys |-> [cur |-> -1, chg |-> -1]] @@ cc ELSE cc
             /\ IF lin \/ nw.iter = 0 THEN UNCHANGED <<mods, par, cvars>> ELSE Restore
     /\ info # <<>> => Truthful(info[1])
     /\ nw' = Idle
     /\ UNCHANGED <<top, evars, ext>> /\ Done

\* ------------------------------------------------------- between the solves ----
Settled(now) == nw = Idle /\ SeenOk(now) /\ UNCHANGED <<svars, nvars>> /\ Done
Precision(b) == ext' = b /\ UNCHANGED <<svars, nw, hist, cc>> /\ Done
\* the user's own history
InitialCondition(i, q) ==
  IF Len(i) = 0 \/ Len(i) # Len(q) THEN No /\ UNCHANGED nvars
  ELSE /\ hist' = [hist EXCEPT ![ext] = [q |-> Push(q, @.q), i |-> Push(i, @.i)]]
       /\ UNCHANGED <<svars, nw, ext, cc>> /\ Done
\* what a custom equation adds may be different in each iteration
Swap(n, q) == /\ nw # Idle /\ n \in DOMAIN cust
              /\ cust' = [cust EXCEPT ![n] = q]
              /\ UNCHANGED <<top, mods, par, cvars, dev, eqs, ceqs, ieqs, imods, wt, res, nvars>>

Reading(d, c, n, what) ==
  IF <<d, c>> \notin DOMAIN ceqs \/ (<<d, c>> \in DOMAIN ceqs /\ n \notin DOMAIN ceqs[<<d, c>>]) THEN No
  ELSE LET v == IF <<d, c, n>> \notin DOMAIN cc THEN 0 ELSE cc[<<d, c, n>>][what] IN
       Keep /\ Reply(TRUE, IF v = -1 THEN Anything ELSE <<v>>, {})
=============================================================================
