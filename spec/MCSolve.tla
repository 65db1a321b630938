------------------------------- MODULE MCSolve -------------------------------
(* A small universe for Solve: one region with two nodes and one equation, with *)
(* or without a circuit of one node; a solver that answers as it likes.         *)
EXTENDS Solve
CONSTANTS Solves, Circ, Types
VARIABLES left,   \* solves to come
          was,    \* what the unknowns were when the solve was asked for
          hwas,   \* ... and the history
          gave    \* the last answers of the solver: the update of every node, of the circuit
mvars == <<svars, nvars, left, was, hwas, gave>>
Kept(cls, v) == [cls |-> cls, kind |-> "sol", vals |-> v]
Lib == [NodeVolume |-> Kept("node", <<1, 2>>), EdgeCouple |-> Kept("edge", <<3>>), u |-> Kept("node", <<1, 2>>),
        f |-> [cls |-> "node", kind |-> "expr", ast |-> [k |-> "m", n |-> "u", al |-> ""], pin |-> <<>>, may |-> FALSE], g |-> Kept("edge", <<5>>)]
       @@ ("f:u" :> Kept("node", <<1, 1>>)) @@ ("g:u@n0" :> Kept("edge", <<1>>)) @@ ("g:u@n1" :> Kept("edge", <<2>>))
DR == <<"d", "r">>
Q == [name |-> "E1", var |-> "u", upd |-> "default", node |-> "f", edge |-> "", edgevol |-> "", elem |-> "", v0 |-> "", v1 |-> "", time |-> "f"]
C == [circuit |-> "", node |-> "f", edge |-> "", edgevol |-> "", elem |-> "", v0 |-> "", v1 |-> "",
      ncur |-> "f", ecur |-> "g", lcur |-> "", nchg |-> "f", echg |-> "", lchg |-> ""]
MCInit ==
  /\ top = (DR :> [nn |-> 2, edges |-> <<<<1, 2>>>>, elems |-> <<>>, ilen |-> <<1>>]) /\ mods = (DR :> Lib)
  /\ dev = ("d" :> [cons |-> ("c1" :> [reg |-> "r", nodes |-> <<1>>]), ifs |-> Free0, ord |-> <<"c1">>])
  /\ eqs = (DR :> <<Q>>) /\ ceqs = (<<"d", "c1">> :> ("E1" :> C)) /\ ieqs = Free0 /\ imods = Free0 /\ cust = Free0 /\ wt = Free0
  /\ al = CFree /\ lock = FALSE /\ par = CFree /\ res = [ok |-> TRUE, vals |-> <<>>, lst |-> {}]
  /\ IF Circ THEN cn = WithGround("n1" :> "node") /\ el = ("R1" :> [t |-> "R", n1 |-> "n1", n2 |-> "0", p |-> [R |-> 1]]) ELSE cn = CFree /\ el = CFree
  /\ sol = CFree
  /\ SolveInit /\ left = Solves /\ was = <<>> /\ hwas = hist /\ gave = <<>>
\* what an observer sees: small whole numbers
Signed(v) == IF v < PP \div 2 THEN v ELSE v - PP
U == mods[DR].u.vals
Now == [dev |-> ("d" :> ("r" :> ("u" :> [v |-> U, a |-> [i \in DOMAIN U |-> Unit * Signed(U[i])], pos |-> [i \in DOMAIN U |-> Signed(U[i]) > 0]]))),
        cir |-> IF CNodes = {} THEN Free0
                ELSE [n \in CNodes |-> LET v == IF "dcop" \in DOMAIN sol THEN sol["dcop"][n] ELSE 0 IN [v |-> v, a |-> Unit * Signed(v)]]]
O(ty, iters, div, max, sym, q) ==
  [type |-> ty, solver |-> "direct", out |-> "n1", omega |-> 2, order |-> <<"d">>, tdelta |-> IF ty \in Stepping THEN 2 ELSE 0,
   gamma |-> IF ty = "transient_bdf2" THEN FInv(2) ELSE 1, rel |-> 2048, abs |-> 1536, max |-> max, iters |-> iters, div |-> div,
   sym |-> sym, qerr |-> q, info |-> FALSE]
Opts == {O(ty, i, d, m, 1, q) : ty \in Types, i \in {1, 2}, d \in {1, 20}, m \in {-1, 512}, q \in {"any", "exact"}}
Same4 == UNCHANGED <<left, hwas>>
DoSolve == nw = Idle /\ left > 0 /\ \E o \in Opts : (o.qerr = "any" \/ o.type \in Stepping) /\ (o.max = -1 \/ o.div = 20)
             /\ (o.type \in Linear => o.iters = 1 /\ o.div = 20 /\ o.max = -1) /\ Begin(o, Now)
             /\ left' = left - 1 /\ was' = [u |-> U, cir |-> sol'] /\ hwas' = hist /\ gave' = <<>>
CNum == [n \in DOMAIN CanonCircuit |-> CanonCircuit[n]]
DoStart == nw.st = "begun" /\ \E a \in {"csc", "csr", "bad"} : (a = "csr" => left = 0)
             /\ Start(Order, nw.o.type = "noise", "d" :> ("r" :> ("E1" :> CanonNum[<<"d", "r", "E1">>])), CNum, a) /\ Same4 /\ UNCHANGED <<was, gave>>
Mat(time) == MatrixOf(IF time THEN Scaled(IF nw.o.type \in Linear THEN nw.o.omega ELSE Method(nw.o).a0, Load(TRUE).j) ELSE Load(FALSE).j, nw.n)
Full(m) == LET N == nw.n at(x) == LET k == (x - 1) \div N o == (x - 1) % N IN IF ByRow THEN k * N + o + 1 ELSE o * N + k + 1 IN
           [x \in 1..(N * N) |-> m[at(x)]]
Dense == [ap |-> [i \in 1..(nw.n + 1) |-> (i - 1) * nw.n], ai |-> [x \in 1..(nw.n * nw.n) |-> (x - 1) % nw.n],
          re |-> Full(IF nw.o.type \in Stepping THEN Add(Mat(FALSE), Mat(TRUE)) ELSE Mat(FALSE)),
          im |-> IF nw.o.type \in Linear THEN Full(Mat(TRUE)) ELSE <<>>]
DoFactor == nw.st = "load" /\ May /\ \E ans \in BOOLEAN : Factor(Dense, nw.iter > 0, nw.o.type \in Linear, ans) /\ Same4 /\ UNCHANGED <<was, gave>>
Rhs == IF nw.o.type \in {"ac"} THEN [re |-> AcRhs("acreal"), im |-> AcRhs("acimag")]
       ELSE IF nw.o.type = "noise" THEN [re |-> UnitAt(nw.cnum["n1"]), im |-> Zeros(nw.n)]
       ELSE [re |-> Add(RhsOf(Load(FALSE).f \o (IF Moving THEN ScaledF(Method(nw.o).a0, Load(TRUE).f) ELSE <<>>), nw.n), Remembered(nw.o, nw.n)), im |-> <<>>]
DoAnswer == nw.st = "factored" /\ \E k \in {-1, 0, 1, 2}, c \in {0, 1}, ans \in BOOLEAN :
   /\ (c = 1 => Circ) /\ (ans \/ k = 0)
   /\ LET x(i) == IF i = nw.n /\ Circ THEN c ELSE k
          X == IF nw.o.type \in Linear THEN [re |-> [i \in 1..nw.n |-> Norm(x(i))], im |-> Zeros(nw.n)]
               ELSE [r |-> [i \in 1..nw.n |-> Norm(x(i))], a |-> [i \in 1..nw.n |-> Unit * x(i)], d |-> Zeros(nw.n)] IN
      Answer(Rhs, nw.o.type \in Linear, ans, X)
   /\ gave' = <<k, IF Circ THEN c ELSE 0>> /\ Same4 /\ UNCHANGED was
DoFinish(ok) == nw.st \in {"begun", "load", "fail"} /\ (nw.st = "load" => ~May \/ nw.conv) /\ Finish(ok, <<>>) /\ Same4 /\ UNCHANGED <<was, gave>>
DoGood == DoFinish(TRUE)
DoBad == DoFinish(FALSE)
DoInitial == nw = Idle /\ left = Solves /\ hist = [x \in BOOLEAN |-> NoHist]
             /\ InitialCondition([i \in 1..Order |-> 1], [i \in 1..Order |-> 2]) /\ UNCHANGED <<left, was, hwas, gave>>
ASSUME \A i \in 1..9 : TLCSet(i, 0)
Hit(i, a) == IF TLCGet(i) = 0 THEN TLCSet(i, 1) /\ PrintT(<<"HIT", a>>) ELSE TRUE
Next ==
  \/ DoSolve /\ Hit(1, "DoSolve")
  \/ DoStart /\ Hit(2, "DoStart")
  \/ DoFactor /\ Hit(3, "DoFactor")
  \/ DoAnswer /\ Hit(4, "DoAnswer")
  \/ DoGood /\ Hit(5, "DoGood")
  \/ DoBad /\ Hit(6, "DoBad")
  \/ DoInitial /\ Hit(7, "DoInitial")
Spec == MCInit /\ [][Next]_<<mvars, res>>
View == mvars

\* ------------------------------------------------------------ properties ----
\* a solve that ends without convergence leaves the unknowns, the history and what
\* is known of the contacts as they were
Dc(s) == IF "dcop" \in DOMAIN s THEN s["dcop"] ELSE CFree
FailedKeeps == [][(nw # Idle /\ nw' = Idle /\ DoBad) =>
                    /\ mods'[DR].u.vals = was.u /\ Dc(sol') = Dc(was.cir) /\ hist' = hwas /\ cc' = cc]_mvars
\* whatever converged had updates below the limits, in its last iteration
Sz(k) == Unit * Abs(k)
Shrunk == (nw # Idle /\ nw.st = "load" /\ nw.iter > 0 /\ nw.conv /\ nw.o.type \notin Linear) =>
            /\ Sz(gave[1]) < nw.o.abs
            /\ \A i \in 1..2 : LET v == Abs(Signed(U[i])) IN gave[1] = 0 \/ (v > 0 /\ 4096 * Abs(gave[1]) <= nw.o.rel * v)
            /\ Circ => Sz(gave[2]) < nw.o.abs
\* it goes on only as long as it may
Bounded == nw # Idle => nw.iter <= nw.o.iters
\* only an accepted step is remembered, at most three, and only of time steps
Remembers == [][hist' # hist => \/ nw # Idle /\ nw.conv /\ nw.o.type \notin ({"dc"} \cup Linear)
                                \/ nw = Idle /\ left = Solves]_mvars
\* what is remembered last is the charge of what the unknowns are
LastCharge == [][(nw # Idle /\ nw' = Idle /\ hist' # hist) =>
                   \A i \in 1..2 : hist'[ext].q[1][CanonNum[<<"d", "r", "E1">>][i] + 1] = (IF i = 1 THEN hist'[ext].q[1][CanonNum[<<"d", "r", "E1">>][i] + 1]
                                                                                          ELSE FNeg(FMul(Lib.NodeVolume.vals[i], U[i])))]_mvars
\* the methods: exact for charges that are constant, linear and (but for the first) quadratic in time
Steps == {1, 2, 4, FInv(2)}
MT(ty, t, g) == Method([O(ty, 1, 1, -1, 1, "any") EXCEPT !.tdelta = t, !.gamma = g])
ASSUME \A t \in Steps : LET m == MT("transient_bdf1", t, 1) IN
         FAdd(m.a0, m.a1) = 0 /\ FMul(m.a0, t) = 1 /\ m.a2 = 0 /\ m.b1 = 0
ASSUME \A t \in Steps : LET m == MT("transient_tr", t, 1) IN
         FAdd(m.a0, m.a1) = 0 /\ FMul(m.a0, t) = 2 /\ FMul(m.a0, FMul(t, t)) = FMul(2, t) /\ m.b1 = 1 /\ m.a2 = 0
ASSUME \A t \in Steps, g \in {FInv(2), FInv(4), 2} : LET m == MT("transient_bdf2", t, g) x == FMul(g, t) IN
         /\ FAdd(m.a0, FAdd(m.a1, m.a2)) = 0
         /\ FAdd(FMul(m.a0, t), FMul(m.a1, x)) = 1
         /\ FAdd(FMul(m.a0, FMul(t, t)), FMul(m.a1, FMul(x, x))) = FMul(2, t)
\* to be refuted: these happen
NeverTwoSteps == ~(hist[FALSE].q[3] # <<>> /\ nw = Idle)
NeverTwoIterations == ~(nw # Idle /\ nw.st = "load" /\ nw.iter = 2 /\ nw.conv)
\* ... and without the restoring, failures show
NoRestore == UNCHANGED <<mods, par, cvars>>
\* ... or with a solve that stops as soon as one of both errors is small
Either(o, er) == {\E d \in DOMAIN dev : er.dev[d].abs.hi < o.abs}
=============================================================================
