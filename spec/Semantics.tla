----------------------------- MODULE Semantics ------------------------------
EXTENDS Channels, Integers, Sequences, FiniteSets, TLC
(***************************************************************************)
(* What operations, programs and observables mean.                         *)
(*                                                                         *)
(* An operation is a record                                                *)
(*   [nm |-> gate name, t |-> targets, c |-> controls,                     *)
(*    p |-> parameter name or "", a |-> angle code used when p = "",       *)
(*    ps |-> Pauli strings of an evolution, ns |-> noise instances]        *)
(* An observable (or composite operator) is a tree of nodes                *)
(*   [k |-> "op", o |-> operation]      [k |-> "seq", xs |-> nodes]        *)
(*   [k |-> "add", xs |-> nodes]                                           *)
(*   [k |-> "scale", xs |-> nodes, r |-> <<num, den>>, p |-> name or ""]   *)
(* env maps parameter names to angle codes, senv to rationals.             *)
(***************************************************************************)

Code(op, env) == IF op.p = "" THEN op.a ELSE env[op.p]
IsParam(op) == op.nm \in ParamNames1 \cup {"HEVO"}

(***************************************************************************)
(* Evolution under a Hamiltonian that is a sum of mutually commuting       *)
(* groups; a group is a sum of pairwise anticommuting Pauli strings with   *)
(* rational weights <<num, den>> whose squares add up to 1, hence squares  *)
(* to the identity.  For a time t with exp(i t) = exp(i theta/2) of the    *)
(* code, each group G contributes the factor                               *)
(* exp(-i t G) = cos t - i sin t G.                                        *)
(***************************************************************************)
RECURSIVE ApplyString(_, _, _, _, _)
ApplyString(ps, ws, k, n, a) == \* P applied to the array, wire by wire
  IF k = 0 THEN a
  ELSE ApplyString(ps, ws, k - 1, n, ApplyMat(Static(ps[k]), <<ws[k]>>, <<>>, n, a))
RECURSIVE GroupColumn(_, _, _, _)
GroupColumn(g, i, k, a) == \* terms 1..i of the group, on k wires
  IF i = 0 THEN AZero(P2(k))
  ELSE AAdd(GroupColumn(g, i - 1, k, a),
            AScale(<<g[i].w[1], 0, 0, 0>>, g[i].w[2],
                   ApplyString(g[i].ps, [j \in 1..k |-> j], k, k, a)))
\* exp(-i t G) applied to each basis state, as a matrix
EvoMatrix(g, code) ==
  LET u == HalfPhase(code)
      k == Len(g[1].ps)
      col(j) == AAdd(AScale(TwoCos(u), 2 * u.d, Basis(k, j - 1)),
                     AScale(ZMul(<<0, 0, -1, 0>>, TwoSin(u)), 2 * u.d,
                            GroupColumn(g, Len(g), k, Basis(k, j - 1))))
      cols == TLCEval([j \in 1..P2(k) |-> col(j)])
      D == 10 * u.d * u.d   \* a common denominator
  IN  [d |-> D, m |-> TLCEval([r \in 1..P2(k) |-> [c \in 1..P2(k) |->
                          ZScale(D \div cols[c].d, cols[c].v[r])]])]
RECURSIVE EvoApply(_, _, _, _, _, _, _, _)
EvoApply(gs, k, code, ws, cs, n, a, conj) ==
  IF k = 0 THEN a
  ELSE LET m == EvoMatrix(gs[k], code)
       IN EvoApply(gs, k - 1, code, ws, cs, n,
                   ApplyMat(IF conj THEN MConj(m) ELSE m, ws, cs, n, a), conj)

\* two Pauli strings anticommute iff they differ, both non-trivially, on an odd
\* number of wires
AntiCommute(p, q) ==
  Cardinality({i \in DOMAIN p : p[i] # "I" /\ q[i] # "I" /\ p[i] # q[i]}) % 2 = 1

(***************************************************************************)
(* One operation on a state vector and on a density matrix                 *)
(***************************************************************************)
GateVec(op, env, n, a) ==
  IF op.nm = "HEVO" THEN EvoApply(op.ps, Len(op.ps), Code(op, env), op.t, op.c, n, a, FALSE)
  ELSE ApplyMat(Matrix(op.nm, Code(op, env)), op.t, op.c, n, a)

GateDM(op, env, n, rho) ==
  IF op.nm = "HEVO"
  THEN EvoApply(op.ps, Len(op.ps), Code(op, env), Shift(op.t, n), Shift(op.c, n), 2 * n,
         EvoApply(op.ps, Len(op.ps), Code(op, env), op.t, op.c, 2 * n, rho, FALSE), TRUE)
  ELSE LET m == Matrix(op.nm, Code(op, env))
       IN  Right(m, op.t, op.c, n, Left(m, op.t, op.c, n, rho))

RECURSIVE Noisy(_, _, _, _, _)
Noisy(nss, k, w, n, rho) == \* channels 1..k of nss, in order, on wire w
  IF k = 0 THEN rho ELSE ApplyChannel(nss[k], w, n, Noisy(nss, k - 1, w, n, rho))
OpDM(op, env, n, rho) == Noisy(op.ns, Len(op.ns), op.t[1], n, GateDM(op, env, n, rho))

RECURSIVE RunVec(_, _, _, _, _)
RunVec(ops, k, env, n, a) ==
  IF k = 0 THEN a ELSE GateVec(ops[k], env, n, RunVec(ops, k - 1, env, n, a))
RECURSIVE RunDM(_, _, _, _, _)
RunDM(ops, k, env, n, rho) ==
  IF k = 0 THEN rho ELSE OpDM(ops[k], env, n, RunDM(ops, k - 1, env, n, rho))

(***************************************************************************)
(* First and second derivatives of an operation with respect to its angle. *)
(* The time of an evolution is half its angle, and the derivative of       *)
(* exp(-i t H) with respect to t is -i H exp(-i t H).                      *)
(***************************************************************************)
RECURSIVE HamColumn(_, _, _, _)
HamColumn(gs, i, k, a) == \* groups 1..i applied to an array of k wires, and summed
  IF i = 0 THEN AZero(P2(k))
  ELSE AAdd(HamColumn(gs, i - 1, k, a), GroupColumn(gs[i], Len(gs[i]), k, a))
\* the matrix -i H / 2
HalfGenerator(gs) ==
  LET k == Len(gs[1][1].ps)
      cols == TLCEval([j \in 1..P2(k) |-> HamColumn(gs, Len(gs), k, Basis(k, j - 1))])
  IN  [d |-> 10, m |-> TLCEval([r \in 1..P2(k) |-> [c \in 1..P2(k) |->
                         ZMul(<<0, 0, -1, 0>>, ZScale(5 \div cols[c].d, cols[c].v[r]))]])]
DGateVec(op, env, n, a) ==
  IF op.nm = "HEVO" THEN ApplyOnly(HalfGenerator(op.ps), op.t, op.c, n, GateVec(op, env, n, a))
  ELSE ApplyOnly(DMatrix(op.nm, Code(op, env)), op.t, op.c, n, a)
DDGateVec(op, env, n, a) ==
  IF op.nm = "HEVO" THEN ApplyOnly(HalfGenerator(op.ps), op.t, op.c, n, DGateVec(op, env, n, a))
  ELSE ApplyOnly(D2Matrix(op.nm, Code(op, env)), op.t, op.c, n, a)
\* g rho + rho g' for the generator g of an evolution
Generate(g, op, n, a) == AAdd(LeftOnly(g, op.t, op.c, n, a), RightOnly(g, op.t, op.c, n, a))
DGateDM(op, env, n, a) ==
  IF op.nm = "HEVO" THEN Generate(HalfGenerator(op.ps), op, n, GateDM(op, env, n, a))
  ELSE LET code == Code(op, env)
           M == Matrix(op.nm, code)
           M1 == DMatrix(op.nm, code)
       IN  AAdd(RightOnly(M1, op.t, op.c, n, Left(M, op.t, op.c, n, a)),
                Right(M, op.t, op.c, n, LeftOnly(M1, op.t, op.c, n, a)))
DDGateDM(op, env, n, a) ==
  IF op.nm = "HEVO" THEN Generate(HalfGenerator(op.ps), op, n, DGateDM(op, env, n, a))
  ELSE LET code == Code(op, env)
           M == Matrix(op.nm, code)
           M1 == DMatrix(op.nm, code)
           M2d == D2Matrix(op.nm, code)
       IN  AAdd(AAdd(RightOnly(M2d, op.t, op.c, n, Left(M, op.t, op.c, n, a)),
                     Right(M, op.t, op.c, n, LeftOnly(M2d, op.t, op.c, n, a))),
                AScale(<<2, 0, 0, 0>>, 1,
                       RightOnly(M1, op.t, op.c, n, LeftOnly(M1, op.t, op.c, n, a))))

(***************************************************************************)
(* Jets: a state with its first and second derivatives with respect to the *)
(* parameters.  d1 is a function of parameters, d2 of pairs of parameters. *)
(***************************************************************************)
JetVec(op, env, n, j, order) ==
  LET U(a) == GateVec(op, env, n, a)
      D(a) == DGateVec(op, env, n, a)
      DD(a) == DDGateVec(op, env, n, a)
      hit(q) == IsParam(op) /\ op.p = q
  IN  [v |-> U(j.v),
       d1 |-> IF order < 1 THEN j.d1
              ELSE [q \in DOMAIN j.d1 |->
                      IF hit(q) THEN AAdd(U(j.d1[q]), D(j.v)) ELSE U(j.d1[q])],
       d2 |-> IF order < 2 THEN j.d2
              ELSE [qr \in DOMAIN j.d2 |->
                      LET b == U(j.d2[qr])
                          b1 == IF hit(qr[1]) THEN AAdd(b, D(j.d1[qr[2]])) ELSE b
                          b2 == IF hit(qr[2]) THEN AAdd(b1, D(j.d1[qr[1]])) ELSE b1
                      IN  IF hit(qr[1]) /\ hit(qr[2]) THEN AAdd(b2, DD(j.v)) ELSE b2]]

JetDM(op, env, n, j, order) ==
  LET N(a) == Noisy(op.ns, Len(op.ns), op.t[1], n, a)
      U(a) == OpDM(op, env, n, a)
      D(a) == N(DGateDM(op, env, n, a))
      DD(a) == N(DDGateDM(op, env, n, a))
      hit(q) == IsParam(op) /\ op.p = q
  IN  [v |-> U(j.v),
       d1 |-> IF order < 1 THEN j.d1
              ELSE [q \in DOMAIN j.d1 |->
                      IF hit(q) THEN AAdd(U(j.d1[q]), D(j.v)) ELSE U(j.d1[q])],
       d2 |-> IF order < 2 THEN j.d2
              ELSE [qr \in DOMAIN j.d2 |->
                      LET b == U(j.d2[qr])
                          b1 == IF hit(qr[1]) THEN AAdd(b, D(j.d1[qr[2]])) ELSE b
                          b2 == IF hit(qr[2]) THEN AAdd(b1, D(j.d1[qr[1]])) ELSE b1
                      IN  IF hit(qr[1]) /\ hit(qr[2]) THEN AAdd(b2, DD(j.v)) ELSE b2]]

JetInit(a, params, order) ==
  [v |-> a,
   d1 |-> [q \in IF order < 1 THEN {} ELSE params |-> AZero(Len(a.v))],
   d2 |-> [qr \in IF order < 2 THEN {} ELSE params \X params |-> AZero(Len(a.v))]]

(***************************************************************************)
(* Observables, as linear maps on arrays of N wires                        *)
(***************************************************************************)
RNum(node, senv) == IF node.p = "" THEN node.r ELSE senv[node.p]

RECURSIVE ApplyNode(_, _, _, _, _), ApplySeq(_, _, _, _, _, _), ApplySum(_, _, _, _, _, _)
ApplyNode(node, env, senv, N, a) ==
  CASE node.k = "op" -> GateVec(node.o, env, N, a)
    [] node.k = "seq" -> ApplySeq(node.xs, Len(node.xs), env, senv, N, a)
    [] node.k = "add" -> ApplySum(node.xs, Len(node.xs), env, senv, N, a)
    [] node.k = "scale" ->
         LET r == RNum(node, senv)
         IN  AScale(<<r[1], 0, 0, 0>>, r[2],
                    ApplySeq(node.xs, Len(node.xs), env, senv, N, a))
ApplySeq(xs, k, env, senv, N, a) ==
  IF k = 0 THEN a ELSE ApplyNode(xs[k], env, senv, N, ApplySeq(xs, k - 1, env, senv, N, a))
ApplySum(xs, k, env, senv, N, a) ==
  IF k = 1 THEN ApplyNode(xs[1], env, senv, N, a)
  ELSE AAdd(ApplySum(xs, k - 1, env, senv, N, a), ApplyNode(xs[k], env, senv, N, a))

\* derivative of the map with respect to the scale parameter q
RECURSIVE DNode(_, _, _, _, _, _), DSeq(_, _, _, _, _, _, _), DSum(_, _, _, _, _, _, _)
DNode(node, q, env, senv, N, a) ==
  CASE node.k = "op" -> AZero(Len(a.v))
    [] node.k = "seq" -> DSeq(node.xs, Len(node.xs), q, env, senv, N, a)
    [] node.k = "add" -> DSum(node.xs, Len(node.xs), q, env, senv, N, a)
    [] node.k = "scale" ->
         LET r == RNum(node, senv)
             rest == AScale(<<r[1], 0, 0, 0>>, r[2],
                            DSeq(node.xs, Len(node.xs), q, env, senv, N, a))
         IN  IF node.p = q
             THEN AAdd(ApplySeq(node.xs, Len(node.xs), env, senv, N, a), rest) ELSE rest
DSeq(xs, k, q, env, senv, N, a) ==
  IF k = 0 THEN AZero(Len(a.v))
  ELSE AAdd(DNode(xs[k], q, env, senv, N, ApplySeq(xs, k - 1, env, senv, N, a)),
            ApplyNode(xs[k], env, senv, N, DSeq(xs, k - 1, q, env, senv, N, a)))
DSum(xs, k, q, env, senv, N, a) ==
  IF k = 1 THEN DNode(xs[1], q, env, senv, N, a)
  ELSE AAdd(DSum(xs, k - 1, q, env, senv, N, a), DNode(xs[k], q, env, senv, N, a))

\* Re <a| O |b>
Braket(a, node, env, senv, N, b) == AReal(AInner(a, ApplyNode(node, env, senv, N, b)))
\* Re Tr (O rho)
TraceOf(node, env, senv, n, rho) == AReal(Trace(n, ApplyNode(node, env, senv, 2 * n, rho)))

\* sums of real numbers [d, p, q]
RAdd(x, y) ==
  LET g == Gcd(x.d, y.d)
      kx == y.d \div g
      ky == x.d \div g
  IN  [d |-> x.d * kx, p |-> kx * x.p + ky * y.p, q |-> kx * x.q + ky * y.q]

ExpVec(j, node, env, senv, n) == Braket(j.v, node, env, senv, n, j.v)
GradVec(j, node, env, senv, n, q) ==
  RAdd(Braket(j.d1[q], node, env, senv, n, j.v), Braket(j.v, node, env, senv, n, j.d1[q]))
HessVec(j, node, env, senv, n, qr) ==
  RAdd(RAdd(Braket(j.d2[qr], node, env, senv, n, j.v), Braket(j.v, node, env, senv, n, j.d2[qr])),
       RAdd(Braket(j.d1[qr[1]], node, env, senv, n, j.d1[qr[2]]),
            Braket(j.d1[qr[2]], node, env, senv, n, j.d1[qr[1]])))
DScaleVec(j, node, env, senv, n, q) == AReal(AInner(j.v, DNode(node, q, env, senv, n, j.v)))

ExpDM(j, node, env, senv, n) == TraceOf(node, env, senv, n, j.v)
GradDM(j, node, env, senv, n, q) == TraceOf(node, env, senv, n, j.d1[q])
HessDM(j, node, env, senv, n, qr) == TraceOf(node, env, senv, n, j.d2[qr])
DScaleDM(j, node, env, senv, n, q) == AReal(Trace(n, DNode(node, q, env, senv, 2 * n, j.v)))

\* probabilities of the basis states, as real numbers
ProbsVec(a, n) ==
  [i \in 1..P2(n) |-> AReal([d |-> a.d * a.d, v |-> <<ZMul(ZConj(a.v[i]), a.v[i])>>])]
ProbsDM(rho, n) ==
  [i \in 1..P2(n) |-> AReal([d |-> rho.d, v |-> <<rho.v[(i - 1) * P2(n) + i]>>])]

\* the matrix of a program or observable, column by column (flattened columns)
NodeMatrix(node, env, senv, n) ==
  TLCEval([j \in 1..P2(n) |-> ApplyNode(node, env, senv, n, Basis(n, j - 1))])
=============================================================================
