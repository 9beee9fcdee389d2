------------------------------ MODULE GenProg -------------------------------
EXTENDS Choose
(***************************************************************************)
(* Random behaviours of the machine, printed as JSON for replay against    *)
(* the real code.                                                          *)
(***************************************************************************)
\* left: operations still to choose; depth: open brackets; queue: a nested sequence that is
\* being repeated
VARIABLES left, depth, queue
gvars == <<vars, left, depth, queue>>

GInit == New /\ left = 0 /\ depth = 0 /\ queue = <<>>

GPrepare ==
  /\ ph = "new"
  /\ \E nn \in {R(conf.ns)} : \E md \in {R(conf.modes)} :
     \E arr \in {TLCEval(InitArray(nn, md))} :
     \E e \in {TLCEval([q \in conf.params |-> Angle(q)])} :
     \E se \in {TLCEval([q \in conf.sparams |-> Ratio(q)])} :
        /\ Prepare(nn, md, arr, e, se, conf.params, conf.order)
        /\ left' = R(conf.len)
        /\ depth' = 0 /\ queue' = <<>>

LastOp == IF prog = <<>> \/ prog[Len(prog)].k # "op" THEN <<>> ELSE <<prog[Len(prog)].o>>

\* with a parameter "t", all evolutions share the time and the Hamiltonian of the first one
Evolutions == SelectSeq(Ops, LAMBDA o : o.nm = "HEVO")
Share(op) ==
  IF op.nm # "HEVO" \/ "t" \notin conf.params \/ Evolutions = <<>> THEN op
  ELSE LET h == Evolutions[1]
       IN  IF Len(op.t) = Len(h.t) THEN [op EXCEPT !.ps = h.ps]
           ELSE [op EXCEPT !.ps = h.ps, !.t = h.t, !.c = h.c]

GOperate ==
  /\ ph = "run" /\ left > 0 /\ queue = <<>> /\ UNCHANGED queue
  /\ \E op \in {TLCEval(Share(RandOp(n, LastOp)))} : \E j \in {TLCEval(StepJet(op))} :
       IF Fits(j, IF op.ns = <<>> THEN mode ELSE "dm")
       THEN Operate(op, j, conf.hist) /\ left' = left - 1 /\ depth' = depth
       ELSE \* too large: stop here (closing brackets)
            /\ left' = 0 /\ UNCHANGED <<vars, depth>>

GOpen == /\ conf.nest /\ ph = "run" /\ left > 0 /\ depth < conf.depth /\ queue = <<>>
         /\ Bracket("open") /\ depth' = depth + 1 /\ UNCHANGED <<left, queue>>
GClose == /\ ph = "run" /\ depth > 0 /\ queue = <<>>
          /\ Bracket("close") /\ depth' = depth - 1 /\ UNCHANGED <<left, queue>>

\* Using a nested sequence of the program again
Tokens(i, j, k) == Cardinality({x \in i..j : prog[x].k = k})
Blocks ==
  {b \in (DOMAIN prog) \X (DOMAIN prog) :
     /\ b[1] < b[2] /\ prog[b[1]].k = "open" /\ prog[b[2]].k = "close"
     /\ Tokens(b[1], b[2], "op") \in 1..4
     /\ Tokens(b[1], b[2], "open") = Tokens(b[1], b[2], "close")
     /\ \A j \in b[1]..(b[2] - 1) : Tokens(b[1], j, "open") > Tokens(b[1], j, "close")}
GRepeat ==
  /\ conf.nest /\ ph = "run" /\ left > 0 /\ queue = <<>> /\ Blocks # {}
  /\ \E b \in {R(Blocks)} : queue' = SubSeq(prog, b[1], b[2])
  /\ left' = left - 1 /\ UNCHANGED <<vars, depth>>
GReplay ==
  /\ ph = "run" /\ queue # <<>> /\ UNCHANGED depth
  /\ IF Head(queue).k # "op"
     THEN Bracket(Head(queue).k) /\ queue' = Tail(queue) /\ UNCHANGED left
     ELSE LET op == Head(queue).o
          IN  \E j \in {TLCEval(StepJet(op))} :
                IF Fits(j, IF op.ns = <<>> THEN mode ELSE "dm")
                THEN Operate(op, j, conf.hist) /\ queue' = Tail(queue) /\ UNCHANGED left
                ELSE /\ queue' = SelectSeq(queue, LAMBDA x : x.k # "op")
                     /\ left' = 0 /\ UNCHANGED vars

RealArr(r) == <<r.d, r.p, r.q>>
Arr(a) == [d |-> a.d, v |-> a.v]

Exps(j, o) == IF IsVec THEN ExpVec(j, o, env, senv, n) ELSE ExpDM(j, o, env, senv, n)
Grads(j, o) == [q \in conf.params |->
                  RealArr(IF IsVec THEN GradVec(j, o, env, senv, n, q) ELSE GradDM(j, o, env, senv, n, q))]
SGrads(j, o) == [q \in conf.sparams |->
                  RealArr(IF IsVec THEN DScaleVec(j, o, env, senv, n, q) ELSE DScaleDM(j, o, env, senv, n, q))]
Hesses(j, o) == [q \in conf.params |-> [r \in conf.params |->
                  RealArr(IF IsVec THEN HessVec(j, o, env, senv, n, <<q, r>>)
                          ELSE HessDM(j, o, env, senv, n, <<q, r>>))]]

Square(o) == [k |-> "seq", xs |-> <<o, o>>]
\* mean and mean square of o in the final state when the angle of the k-th operation
\* alone is moved by s quarter turns (the evaluations of the parameter-shift rule)
Moved(o, k, s) ==
  LET c == Code(Ops[k], env)
      ops == [Ops EXCEPT ![k].p = "", ![k].a = <<c[1] + s, c[2]>>]
      pure == Len(init.v) = P2(n)
      a == TLCEval(IF IsVec THEN RunVec(ops, Len(ops), env, n, init)
                   ELSE RunDM(ops, Len(ops), env, n, IF pure THEN Outer(init, init) ELSE init))
      j == [v |-> a, d1 |-> <<>>, d2 |-> <<>>]
  IN  <<RealArr(Exps(j, o)), RealArr(Exps(j, Square(o)))>>
\* the occurrences of parameters, and whether their rotation is controlled
Places == {k \in DOMAIN Ops : IsParam(Ops[k]) /\ Ops[k].p # ""}
PlaceSeq == SelectSeq([k \in DOMAIN Ops |-> k], LAMBDA k : k \in Places)
AllMoved(o) ==
  [x \in DOMAIN PlaceSeq |->
     LET k == PlaceSeq[x]
     IN  [q |-> Ops[k].p, ctl |-> Ops[k].c # <<>>, up |-> Moved(o, k, 1), down |-> Moved(o, k, -1)]]
\* bookkeeping: the wires a program or an observable touches, its parameters
OpWires(o) == {o.t[i] : i \in DOMAIN o.t} \cup {o.c[i] : i \in DOMAIN o.c}
RECURSIVE NodeWires(_)
NodeWires(nd) == IF nd.k = "op" THEN OpWires(nd.o) ELSE UNION {NodeWires(nd.xs[i]) : i \in DOMAIN nd.xs}
Names == {Ops[i].p : i \in {k \in DOMAIN Ops : IsParam(Ops[k])}} \ {""}
Book(fps, obs) ==
  [sup |-> UNION {OpWires(Ops[i]) : i \in DOMAIN Ops}, names |-> Names, fps |-> fps, vps |-> Names \ fps,
   osup |-> [i \in DOMAIN obs |-> NodeWires(obs[i])]]
\* The final array as a function of the prepared one: its derivative in the direction of a vector
Moving(dir) ==
  [v |-> jet.v,
   d1 |-> [q \in {"state"} |->
            IF IsVec THEN RunVec(Ops, Len(Ops), env, n, dir)
            ELSE RunDM(Ops, Len(Ops), env, n,
                   IF Len(init.v) = P2(n) THEN AAdd(Outer(dir, init), Outer(init, dir)) ELSE Outer(dir, dir))],
   d2 |-> <<>>]
StateGrad(o, j) ==
  RealArr(IF IsVec THEN GradVec(j, o, env, senv, n, "state") ELSE GradDM(j, o, env, senv, n, "state"))
Dirs == IF conf.order = 1 THEN <<GenericVec(n)>> ELSE <<>>

\* An observable as a polynomial of its parameter "s", of degree two at most: what it and its
\* derivatives are for s = -1, 0 and 1
RECURSIVE Degree(_, _), DegreeOf(_, _, _, _)
Degree(nd, q) ==
  IF nd.k = "op" THEN 0
  ELSE DegreeOf(nd.xs, Len(nd.xs), nd.k = "add", q) + (IF nd.k = "scale" /\ nd.p = q THEN 1 ELSE 0)
DegreeOf(xs, k, sum, q) ==
  IF k = 0 THEN 0
  ELSE LET a == DegreeOf(xs, k - 1, sum, q)
           b == Degree(xs[k], q)
       IN  IF ~sum THEN a + b ELSE IF a > b THEN a ELSE b
AtScale(o, x) ==
  LET se == [senv EXCEPT !["s"] = <<x, 1>>]
  IN  [e |-> RealArr(IF IsVec THEN ExpVec(jet, o, env, se, n) ELSE ExpDM(jet, o, env, se, n)),
       g |-> [q \in conf.params |->
               RealArr(IF IsVec THEN GradVec(jet, o, env, se, n, q) ELSE GradDM(jet, o, env, se, n, q))],
       h |-> IF order < 2 THEN <<>>
             ELSE [q \in conf.params |-> [r \in conf.params |->
                    RealArr(IF IsVec THEN HessVec(jet, o, env, se, n, <<q, r>>)
                            ELSE HessDM(jet, o, env, se, n, <<q, r>>))]]]
Polynomial(o) == IF Degree(o, "s") > 2 THEN Assert(FALSE, "degree") ELSE [i \in 1..3 |-> AtScale(o, i - 2)]

Report(obs, dir, moving) ==
  [n |-> n, dir |-> IF dir = <<>> THEN <<>> ELSE <<Arr(dir[1])>>, book |-> IF conf.book THEN <<TLCEval(Book(R(SUBSET (conf.params \cup {"zz"})), obs))>> ELSE <<>>, mode |-> mode, init |-> Arr(init), pure |-> Len(init.v) = P2(n), env |-> env,
   senv |-> senv, prog |-> prog, final |-> Arr(jet.v), hist |-> hist,
   obs |-> [i \in DOMAIN obs |->
      [o |-> obs[i], e |-> RealArr(Exps(jet, obs[i])),
       e2 |-> IF conf.shots THEN <<RealArr(Exps(jet, Square(obs[i])))>> ELSE <<>>,
       sh |-> IF conf.moved THEN AllMoved(obs[i]) ELSE <<>>,
       g |-> IF order >= 1 THEN Grads(jet, obs[i]) ELSE <<>>,
       sd |-> IF dir = <<>> THEN <<>> ELSE StateGrad(obs[i], moving[1]),
       at |-> IF conf.poly THEN Polynomial(obs[i]) ELSE <<>>,
       deg |-> IF conf.poly THEN Degree(obs[i], "s") ELSE 0,
       sg |-> IF order >= 1 THEN SGrads(jet, obs[i]) ELSE <<>>,
       h |-> IF order >= 2 THEN Hesses(jet, obs[i]) ELSE <<>>,
       m |-> IF conf.obsmat THEN [j \in 1..P2(n) |-> Arr(ApplyNode(obs[i], env, senv, n, Basis(n, j - 1)))]
             ELSE <<>>]],
   probs |-> IF conf.probs
             THEN LET ps == IF IsVec THEN ProbsVec(jet.v, n) ELSE ProbsDM(jet.v, n)
                  IN [i \in DOMAIN ps |-> RealArr(ps[i])]
             ELSE <<>>,
   mat |-> IF conf.mat /\ \A i \in DOMAIN Ops : Ops[i].ns = <<>>
           THEN [j \in 1..P2(n) |-> Arr(RunVec(Ops, Len(Ops), env, n, Basis(n, j - 1)))]
           ELSE <<>>]

GFinish ==
  /\ ph = "run" /\ left = 0 /\ depth = 0 /\ queue = <<>>
  /\ Finish /\ UNCHANGED <<left, depth, queue>>
  /\ IF conf.nobs = 0 THEN PrintT("CASE " \o ToJson(Report(<<>>, <<>>, <<>>)))
     ELSE \E obs \in {TLCEval(HermList(n, R(1..conf.nobs)))} : \E dir \in {TLCEval(Dirs)} :
          \E moving \in {IF dir = <<>> THEN <<>> ELSE <<TLCEval(Moving(dir[1]))>>} :
            PrintT("CASE " \o ToJson(Report(obs, dir, moving)))

GNext == GPrepare \/ GOperate \/ GOpen \/ GClose \/ GRepeat \/ GReplay \/ GFinish
GSpec == GInit /\ [][GNext]_gvars

Gates1 == <<"X", "Y", "Z", "H", "S", "T", "I", "RX", "RY", "RZ", "PHASE", "RX", "RY", "RZ", "PHASE", "H">>
Gates2 == <<"SWAP", "SQRTSWAP", "ISWAP", "ISQRTSWAP">>
Rotations == <<"RX", "RY", "RZ", "PHASE", "RX", "RY", "RZ", "PHASE", "H", "X", "T">>
BaseConf ==
  [ns |-> {1, 2, 3}, modes |-> {"vec"}, names |-> Gates1 \o Gates2,
   ctl |-> 2, params |-> {"a", "b"}, sparams |-> {}, ms |-> <<1, -1, 0>>, noise |-> 0,
   init |-> "generic", len |-> 3..7, nest |-> FALSE, depth |-> 4, order |-> 0, hist |-> FALSE,
   nobs |-> 0, obsmat |-> FALSE, mat |-> FALSE, probs |-> FALSE, shots |-> FALSE, moved |-> FALSE, book |-> FALSE,
   terms |-> 3, poly |-> FALSE,
   capv |-> 3000, capd |-> 300000, sticky |-> FALSE]

\* sequences and nesting on vectors
ConfSeq == [BaseConf EXCEPT !.nest = TRUE, !.hist = TRUE]
\* amplitudes of very different size
ConfSeqTiny == [ConfSeq EXCEPT !.init = "tiny", !.ms = <<0>>, !.len = 2..4, !.capv = 12000, !.hist = FALSE]
ConfSparseTiny == [ConfSeqTiny EXCEPT !.nobs = 1, !.ns = {1, 2}, !.len = 1..2, !.params = {"a"}]
\* larger registers
ConfSeqBig == [ConfSeq EXCEPT !.ns = {4, 5}, !.len = 4..9, !.ctl = 3]
\* long programs; angles are multiples of a quarter turn
ConfSeqLong == [ConfSeq EXCEPT !.len = 20..40, !.ns = {2, 3}, !.ms = <<0>>, !.init = "basis", !.hist = FALSE,
                  !.names = <<"H", "X", "Y", "Z", "S", "SWAP", "ISWAP", "RX", "RY", "RZ", "PHASE", "T">>,
                  !.capv = 30000]
\* gates under many controls
ConfControls == [ConfSeq EXCEPT !.ns = {7, 8}, !.ctl = 7, !.len = 1..4, !.nest = FALSE, !.ms = <<0>>]
ConfMergeLong == [ConfSeqLong EXCEPT !.sticky = TRUE, !.nest = FALSE]
ConfDMBig == [BaseConf EXCEPT !.modes = {"dm"}, !.ns = {4}, !.len = 3..5, !.ctl = 3, !.init = "basis"]
ConfMatBig == [BaseConf EXCEPT !.mat = TRUE, !.nest = TRUE, !.ns = {4}, !.len = 3..6, !.ctl = 3]
ConfMergeBig == [BaseConf EXCEPT !.sticky = TRUE, !.len = 5..10, !.ns = {4}, !.ctl = 3]
ConfExpBig == [BaseConf EXCEPT !.nobs = 3, !.sparams = {"s", "u"}, !.ns = {4, 5}, !.len = 3..8, !.ctl = 2]
ConfSampleBig == [BaseConf EXCEPT !.probs = TRUE, !.init = "basis", !.ns = {4, 5}, !.len = 4..9]
\* runs of equal or inverse neighbours in a program
ConfSticky == [ConfSeq EXCEPT !.sticky = TRUE, !.names = Gates2 \o Gates1 \o Gates2, !.ns = {2, 3}, !.ctl = 1, !.len = 4..8]
\* runs of gates on the same wires
ConfMerge == [BaseConf EXCEPT !.sticky = TRUE, !.len = 4..9, !.ns = {2, 3}]
ConfMergeDM == [ConfMerge EXCEPT !.modes = {"dm"}, !.len = 4..7]
\* noisy runs of gates on the same wires
ConfMergeNoise == [ConfMerge EXCEPT !.modes = {"vec", "dm"}, !.noise = 3, !.ns = {2, 3}, !.len = 3..6, !.init = "basis",
                     !.ms = <<0>>]
\* density matrices
ConfDM == [BaseConf EXCEPT !.modes = {"dm"}, !.hist = TRUE, !.nest = TRUE, !.len = 2..6]
\* noisy programs, from vectors and density matrices
ConfNoise == [BaseConf EXCEPT !.modes = {"vec", "dm"}, !.ns = {1, 2}, !.names = Gates1, !.noise = 2,
                !.ctl = 1, !.len = 2..4, !.nest = TRUE]
\* noisy gates under two controls among others on more wires
ConfNoiseBig == [ConfNoise EXCEPT !.ns = {3}, !.ctl = 2, !.init = "basis", !.names = Gates1 \o Gates2, !.len = 2..5]
ConfDMLong == [ConfDM EXCEPT !.init = "basis", !.ms = <<0>>, !.len = 12..20, !.ns = {1, 2}, !.hist = FALSE,
                 !.names = <<"H", "X", "Y", "Z", "S", "SWAP", "ISWAP", "RX", "RY", "RZ", "PHASE", "T">>]
\* matrices of programs and of observables
ConfMat == [BaseConf EXCEPT !.mat = TRUE, !.nest = TRUE, !.len = 1..6]
ConfObsMat == [BaseConf EXCEPT !.obsmat = TRUE, !.nobs = 2, !.sparams = {"s", "u"}, !.len = 1..2]
\* expectation values
ConfExp == [BaseConf EXCEPT !.nobs = 3, !.sparams = {"s", "u"}, !.nest = TRUE, !.len = 1..6]
ConfExpMany == [ConfExp EXCEPT !.nobs = 8, !.terms = 8, !.sparams = {"s", "u", "v", "w"}, !.len = 1..3]
ConfExpDM == [ConfExp EXCEPT !.modes = {"dm"}, !.len = 1..4]
ConfExpNoise == [ConfExp EXCEPT !.modes = {"vec", "dm"}, !.ns = {1, 2}, !.names = Gates1, !.noise = 2,
                   !.ctl = 1, !.len = 1..3]
\* first derivatives
ConfGrad == [BaseConf EXCEPT !.names = Rotations, !.nobs = 2, !.sparams = {"s"}, !.order = 1,
               !.params = {"a", "b", "c"}, !.len = 2..6, !.ctl = 2]
ConfGradLong == [ConfGrad EXCEPT !.len = 9..14, !.ns = {2, 3}, !.ms = <<0>>, !.init = "basis", !.capv = 30000,
                   !.params = {"a", "b", "c", "d", "e"}]
ConfGradDM == [ConfGrad EXCEPT !.modes = {"dm"}, !.ns = {1, 2}, !.len = 2..4]
ConfGradNoise == [ConfGradDM EXCEPT !.modes = {"vec", "dm"}, !.noise = 2, !.len = 1..3]
\* parameters of both the circuit and the observables
ConfShare == [ConfGrad EXCEPT !.poly = TRUE, !.modes = {"vec", "dm"}, !.ns = {1, 2}, !.len = 2..4]
ConfShareHess == [ConfShare EXCEPT !.order = 2, !.params = {"a", "b"}, !.len = 1..4]
\* second derivatives
ConfHess == [ConfGrad EXCEPT !.ns = {1, 2}, !.order = 2, !.len = 2..5, !.params = {"a", "b"}]
\* one parameter in many places
ConfHessOne == [ConfHess EXCEPT !.params = {"a"}, !.len = 3..5, !.nobs = 1]
ConfHessDM == [ConfHess EXCEPT !.modes = {"dm"}, !.len = 2..3]
\* measurements with shots
ConfShots == [BaseConf EXCEPT !.nobs = 2, !.obsmat = TRUE, !.shots = TRUE, !.sparams = {"s"}, !.len = 1..4]
ConfShotsMany == [ConfShots EXCEPT !.nobs = 6, !.ns = {1, 2}, !.len = 1..3, !.sparams = {"s", "u"}]
ConfShotsDM == [ConfShots EXCEPT !.modes = {"vec", "dm"}, !.ns = {1, 2}, !.names = Gates1, !.noise = 3,
                  !.ctl = 1, !.len = 1..3]
ConfShotGrad == [ConfGrad EXCEPT !.moved = TRUE, !.obsmat = TRUE, !.ns = {1, 2}, !.len = 1..3, !.params = {"a", "b"}]
ConfShotGradNoise == [ConfShotGrad EXCEPT !.modes = {"vec", "dm"}, !.noise = 3, !.len = 1..3]
\* sampling
ConfSample == [BaseConf EXCEPT !.probs = TRUE, !.init = "basis", !.len = 1..6]
ConfSampleDM == [ConfSample EXCEPT !.modes = {"vec", "dm"}, !.ns = {1, 2}, !.names = Gates1, !.noise = 3,
                   !.ctl = 1, !.len = 1..3, !.init = "generic"]
\* rare outcomes: short programs that keep the contrast
Permuting == <<"X", "Y", "Z", "S", "T", "PHASE", "RZ", "SWAP", "ISWAP", "H">>
ConfRare == [BaseConf EXCEPT !.probs = TRUE, !.init = "rare", !.len = 1..3, !.modes = {"vec", "dm"}, !.names = Permuting]
ConfShotsRare == [ConfShots EXCEPT !.init = "rare", !.len = 1..3, !.names = Permuting, !.modes = {"vec", "dm"}]
\* sparse arrays
ConfSparse == [BaseConf EXCEPT !.nobs = 2, !.nest = TRUE, !.len = 1..4, !.sparams = {"s"}]
\* Hamiltonian evolution
ConfEvo == [BaseConf EXCEPT !.names = <<"HEVO", "HEVO", "HEVO", "H", "T", "RY", "SWAP">>, !.hist = TRUE,
              !.ctl = 1, !.len = 2..4, !.params = {}]
\* derivatives with respect to the time
ConfEvoGrad == [BaseConf EXCEPT !.names = <<"HEVO", "HEVO", "HEVO", "H", "RX", "RY", "T">>, !.ctl = 1, !.len = 2..4,
                  !.params = {"a", "t"}, !.nobs = 2, !.order = 1]
ConfEvoGradDM == [ConfEvoGrad EXCEPT !.modes = {"dm"}, !.ns = {1, 2}, !.len = 1..3]
ConfEvoHess == [ConfEvoGrad EXCEPT !.order = 2, !.ns = {1, 2}, !.len = 1..3]
ConfEvoDM == [ConfEvo EXCEPT !.modes = {"dm"}, !.ns = {1, 2}, !.len = 1..3]
\* bookkeeping of nested programs
ConfBook == [BaseConf EXCEPT !.nest = TRUE, !.len = 1..7, !.params = {"a", "b", "c"}, !.noise = 4, !.book = TRUE,
               !.ns = {1, 2, 3}, !.nobs = 2, !.sparams = {"s"}, !.ctl = 2, !.capd = 3000]
=============================================================================
