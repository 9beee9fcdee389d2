------------------------------- MODULE Horqrux ------------------------------
EXTENDS Semantics, Integers, Sequences, FiniteSets, TLC
(***************************************************************************)
(* The simulator as a state machine.  A session prepares a register and    *)
(* the values of its parameters, then applies one operation after another, *)
(* possibly opening and closing nested sequences, and finally measures.    *)
(*                                                                         *)
(*   ph    phase: "new", "run" or "done"                                   *)
(*   n     number of wires                                                 *)
(*   mode  "vec" for a state vector, "dm" for a density matrix             *)
(*   jet   the state, with derivatives up to the wanted order              *)
(*   env   angle code of each circuit parameter                            *)
(*   senv  rational value of each scale parameter of the observables       *)
(*   order of derivatives carried along (0, 1 or 2)                        *)
(*   init  the prepared array                                              *)
(*   prog  the program so far: operations and brackets of nested sequences *)
(*   hist  the arrays after each operation (kept when conf.hist)           *)
(***************************************************************************)
VARIABLES ph, n, mode, jet, env, senv, order, init, prog, hist
vars == <<ph, n, mode, jet, env, senv, order, init, prog, hist>>

NoJet == [v |-> AZero(1), d1 |-> <<>>, d2 |-> <<>>]
New == /\ ph = "new" /\ n = 0 /\ mode = "vec" /\ jet = NoJet /\ env = <<>> /\ senv = <<>>
       /\ order = 0 /\ init = AZero(1) /\ prog = <<>> /\ hist = <<>>

Prepare(nn, md, arr, e, se, params, ord) ==
  /\ ph = "new"
  /\ ph' = "run" /\ n' = nn /\ mode' = md /\ env' = e /\ senv' = se /\ order' = ord
  /\ jet' = TLCEval(JetInit(arr, params, ord)) /\ init' = arr /\ prog' = <<>> /\ hist' = <<>>

\* A state vector becomes a density matrix as soon as noise is involved.
PromoteJet(j, ord) ==
  [v |-> Outer(j.v, j.v),
   d1 |-> [q \in DOMAIN j.d1 |-> AAdd(Outer(j.d1[q], j.v), Outer(j.v, j.d1[q]))],
   d2 |-> [qr \in DOMAIN j.d2 |->
             AAdd(AAdd(Outer(j.d2[qr], j.v), Outer(j.v, j.d2[qr])),
                  AAdd(Outer(j.d1[qr[1]], j.d1[qr[2]]), Outer(j.d1[qr[2]], j.d1[qr[1]])))]]

StepJet(op) ==
  IF mode = "vec" /\ op.ns = <<>> THEN JetVec(op, env, n, jet, order)
  ELSE IF mode = "vec" THEN JetDM(op, env, n, PromoteJet(jet, order), order)
  ELSE JetDM(op, env, n, jet, order)

\* Apply one operation; j is the resulting jet.
Operate(op, j, keep) ==
  /\ ph = "run"
  /\ jet' = j
  /\ mode' = IF op.ns = <<>> THEN mode ELSE "dm"
  /\ prog' = Append(prog, [k |-> "op", o |-> op])
  /\ hist' = IF keep THEN Append(hist, j.v) ELSE hist
  /\ UNCHANGED <<ph, n, env, senv, order, init>>

Bracket(b) == \* "open" or "close" a nested sequence: no effect on the state
  /\ ph = "run"
  /\ prog' = Append(prog, [k |-> b])
  /\ UNCHANGED <<ph, n, mode, jet, env, senv, order, init, hist>>

Finish == /\ ph = "run" /\ ph' = "done"
          /\ UNCHANGED <<n, mode, jet, env, senv, order, init, prog, hist>>

(***************************************************************************)
(* Properties of the machine                                               *)
(***************************************************************************)
IsVec == mode = "vec"
Norm2(j) == IF IsVec THEN AInner(j.v, j.v) ELSE Trace(n, j.v)
InitNorm2 == IF Len(init.v) = P2(n) THEN AInner(init, init) ELSE Trace(n, init)

\* Evolution preserves the norm of vectors, the trace of density matrices.
NormPreserved == ph # "new" => AEq(Norm2(jet), InitNorm2)
\* and the hermiticity of density matrices
StaysHermitian ==
  (ph # "new" /\ ~IsVec /\ (Len(init.v) = P2(n) \/ Hermitian(n, init))) => Hermitian(n, jet.v)
\* Diagonal entries stay non-negative for positive inputs (exact sign test)
NonNegReal(z) == \* a + b sqrt(2) >= 0 for z = a + b w - b w^3
  LET a == z[1]
      b == z[2]
  IN  CASE a >= 0 /\ b >= 0 -> TRUE
        [] a < 0 /\ b < 0 -> FALSE
        [] a >= 0 /\ b < 0 -> a * a >= 2 * b * b
        [] OTHER -> 2 * b * b >= a * a
DiagonalNonNegative ==
  (ph # "new" /\ ~IsVec) =>
     \A i \in 1..P2(n) : LET z == jet.v.v[(i - 1) * P2(n) + i] IN ZIsReal(z) /\ NonNegReal(z)
\* Norm preservation has vanishing derivative in every parameter
NormStationary ==
  (ph # "new" /\ order >= 1) =>
     \A q \in DOMAIN jet.d1 :
        LET r == IF IsVec THEN AReal(AInner(jet.v, jet.d1[q])) ELSE AReal(Trace(n, jet.d1[q]))
        IN  r.p = 0 /\ r.q = 0
\* Second derivatives are symmetric
HessSymmetric ==
  (ph # "new" /\ order >= 2) =>
     \A qr \in DOMAIN jet.d2 : AEq(jet.d2[qr], jet.d2[<<qr[2], qr[1]>>])

\* The operations of the program, without brackets
RECURSIVE Flatten(_, _)
Flatten(p, k) == IF k = 0 THEN <<>>
                 ELSE IF p[k].k = "op" THEN Append(Flatten(p, k - 1), p[k].o)
                 ELSE Flatten(p, k - 1)
Ops == Flatten(prog, Len(prog))

\* The state is a function of the prepared state and the flattened program:
\* neither brackets nor the moment of promotion matter.
StateOfProgram ==
  ph # "new" =>
    LET a0 == init
        pure == Len(init.v) = P2(n)
    IN  IF IsVec THEN AEq(jet.v, RunVec(Ops, Len(Ops), env, n, a0))
        ELSE AEq(jet.v, RunDM(Ops, Len(Ops), env, n, IF pure THEN Outer(a0, a0) ELSE a0))
=============================================================================
