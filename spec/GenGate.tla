------------------------------ MODULE GenGate -------------------------------
EXTENDS Choose, IOUtils
(***************************************************************************)
(* Every gate, at every placement of targets and controls, explored        *)
(* exhaustively: one action of the machine from a generic prepared state.  *)
(* What is "vec", "dm", "noise", "mat" or "many" (three or more controls). *)
(* SHARD and NSHARDS of the environment select a part of the placements.   *)
(***************************************************************************)
CONSTANTS What, MaxN
VARIABLES job, pc

ShardNo == atoi(IOEnv.SHARD)
NShards == atoi(IOEnv.NSHARDS)

Codes(nm) ==
  IF nm \notin ParamNames1 THEN {<<0, 0>>}
  ELSE IF What = "many" THEN {<<-3, 1>>, <<1, 0>>}
  ELSE IF What = "vec" THEN {<<1, 0>>, <<0, 1>>, <<-3, 1>>, <<4, 0>>, <<6, 0>>, <<-1, -1>>}
  ELSE {<<-3, 1>>, <<5, 0>>}
NameSeq == <<"I", "X", "Y", "Z", "H", "S", "T", "RX", "RY", "RZ", "PHASE", "SWAP",
             "SQRTSWAP", "ISWAP", "ISQRTSWAP">>
NoiseGates == <<"I", "X", "H", "RY", "PHASE">>
ListedNames == IF What = "noise" THEN NoiseGates ELSE NameSeq

SeqOf(S) == \* the elements in increasing order
  LET RECURSIVE f(_, _)
      f(w, acc) == IF w = 0 THEN acc ELSE f(w - 1, IF w \in S THEN <<w>> \o acc ELSE acc)
  IN f(MaxN, <<>>)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]

AllNoise ==
  UNION {
    {<<[ty |-> ty, pr |-> <<p>>]>> :
       ty \in {"BitFlip", "PhaseFlip", "Depolarizing"}, p \in {<<0, 1>>, <<1, 8>>, <<1, 2>>, <<3, 4>>, <<1, 1>>}},
    {<<[ty |-> ty, pr |-> <<p>>]>> : ty \in {"AmplitudeDamping", "PhaseDamping"}, p \in DampingRates},
    {<<[ty |-> "GeneralizedAmplitudeDamping", pr |-> <<p, g>>]>> :
       p \in {<<0, 1>>, <<1, 4>>, <<3, 4>>, <<1, 1>>}, g \in {<<0, 1>>, <<9, 25>>, <<1, 2>>, <<1, 1>>}},
    {<<[ty |-> "PauliChannel", pr |-> <<<<x, 8>>, <<y, 8>>, <<z, 8>>>>]>> :
       x \in {0, 1, 3}, y \in {0, 2}, z \in {0, 1, 3}}}
NoiseFor == IF What = "noise" THEN AllNoise ELSE {<<>>}

Jobs ==
  UNION { UNION { LET nm == ListedNames[i]
                      k == NTargets(nm)
                  IN UNION { LET rest == (1..nn) \ {t[j] : j \in DOMAIN t}
                             IN UNION {
             { [nn |-> nn, i |-> i, t |-> t, c |-> IF (i + t[1]) % 2 = 0 THEN SeqOf(cs) ELSE Rev(SeqOf(cs)),
                a |-> a, ns |-> ns] : a \in Codes(nm), ns \in NoiseFor }
                  : cs \in CASE What = "noise" -> {{}} \cup {{w} : w \in rest}
                            [] What = "many" -> {cs \in SUBSET rest : Cardinality(cs) >= 3}
                            [] OTHER -> SUBSET rest }
             : t \in Inj(nn, k) }
     : i \in {i \in DOMAIN ListedNames : nn >= NTargets(ListedNames[i])} } : nn \in IF What = "many" THEN {MaxN} ELSE 1..MaxN }

Hash(j) == 3 * j.nn + 5 * j.i + 7 * j.t[1] + 11 * j.t[Len(j.t)] + 13 * Len(j.c) + 17 * j.a[2]
             + 19 * (j.a[1] + 8)
             + (IF j.ns = <<>> THEN 0 ELSE j.ns[1].pr[1][1] + (IF Len(j.ns[1].pr) > 1 /\ Len(j.ns[1].pr) < 4 THEN j.ns[1].pr[2][1] ELSE 0))

Op(j) == [nm |-> ListedNames[j.i], t |-> j.t, c |-> j.c, p |-> "", a |-> j.a, ps |-> <<>>, ns |-> j.ns]

GInit == /\ New /\ pc = "todo"
         /\ job \in {j \in Jobs : Hash(j) % NShards = ShardNo}

A2(a) == [d |-> a.d, v |-> a.v]
Dag(op, nn, a) ==
  ApplyMat(MDagger(Matrix(op.nm, op.a)), op.t, op.c, nn, a)
DagDM(op, nn, a) ==
  LET m == MDagger(Matrix(op.nm, op.a)) IN Right(m, op.t, op.c, nn, Left(m, op.t, op.c, nn, a))

MD == IF What \in {"vec", "mat", "many"} THEN "vec" ELSE "dm"
GPrepare == /\ pc = "todo" /\ pc' = "ready" /\ UNCHANGED job
            /\ \E arr \in {TLCEval(InitArray(job.nn, MD))} :
                  Prepare(job.nn, MD, arr, <<>>, <<>>, {}, 0)
GApply == /\ pc = "ready" /\ pc' = "applied" /\ UNCHANGED job
          /\ \E op \in {Op(job)} : \E j \in {TLCEval(StepJet(op))} : Operate(op, j, FALSE)
GReport ==
  /\ pc = "applied" /\ pc' = "done" /\ UNCHANGED job /\ Finish
  /\ LET op == Op(job)
     IN PrintT("CASE " \o ToJson(
       [n |-> n, mode |-> mode, op |-> op, init |-> A2(init), final |-> A2(jet.v),
        dag |-> IF op.ns # <<>> THEN <<>>
                ELSE <<A2(IF MD = "vec" THEN Dag(op, n, init) ELSE DagDM(op, n, init))>>,
        jac |-> IF op.nm \in ParamNames1 /\ MD = "vec"
                THEN <<A2(ApplyOnly(DMatrix(op.nm, op.a), op.t, op.c, n, init))>> ELSE <<>>,
        mat |-> IF What = "mat" THEN [j \in 1..P2(n) |-> A2(GateVec(op, <<>>, n, Basis(n, j - 1)))]
                ELSE <<>>]))
GNext == GPrepare \/ GApply \/ GReport
GSpec == GInit /\ [][GNext]_<<vars, job, pc>>

GateConf == [init |-> "generic", capv |-> 3000, capd |-> 300000]
\* the generated behaviours satisfy the machine's invariants
=============================================================================
