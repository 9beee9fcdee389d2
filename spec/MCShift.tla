------------------------------ MODULE MCShift -------------------------------
EXTENDS MCMachine
(***************************************************************************)
(* The generalised parameter-shift rule on the machine: for every program  *)
(* of the alphabet the sum over the occurrences of a parameter of shifted  *)
(* expectation values is the derivative carried by the jet, and the rule   *)
(* applied twice gives the second derivatives.                             *)
(*                                                                         *)
(* A generator with eigenvalue gap 2 (rotations, PHASE) needs one shift by *)
(* a quarter turn with coefficient 1/2.  A controlled rotation has gaps 1  *)
(* and 2 and needs quarter and three-quarter turns, with coefficients      *)
(* (2 + sqrt 2)/8 and (-2 + sqrt 2)/8.  Coefficients are reals [d, p, q].  *)
(***************************************************************************)
Rule(op) ==
  IF op.nm = "PHASE" \/ op.c = <<>>
  THEN <<[s |-> 1, c |-> [d |-> 2, p |-> 1, q |-> 0]]>>
  ELSE <<[s |-> 1, c |-> [d |-> 8, p |-> 2, q |-> 1]], [s |-> 3, c |-> [d |-> 8, p |-> -2, q |-> 1]]>>

RMul(x, y) == [d |-> x.d * y.d, p |-> x.p * y.p + 2 * x.q * y.q, q |-> x.p * y.q + x.q * y.p]
RNeg(x) == [d |-> x.d, p |-> -x.p, q |-> -x.q]
RZero == [d |-> 1, p |-> 0, q |-> 0]
REq(x, y) == x.p * y.d = y.p * x.d /\ x.q * y.d = y.q * x.d
RECURSIVE RStrip(_, _)
RStrip(k, x) == IF x.d % k = 0 /\ x.p % k = 0 /\ x.q % k = 0
                THEN RStrip(k, [d |-> x.d \div k, p |-> x.p \div k, q |-> x.q \div k]) ELSE x
RLow(x) == RStrip(2, RStrip(5, RStrip(3, x)))

\* the program with the angle of operation i moved by s quarter turns
Move(ops, i, s) ==
  [k \in DOMAIN ops |-> IF k = i THEN [ops[k] EXCEPT !.a = ShiftCode(Code(ops[k], env), s), !.p = ""] ELSE ops[k]]

Node(nm, w) == [k |-> "op", o |-> Op(nm, <<w>>, <<>>, "", <<0, 0>>)]
Obs == [k |-> "add", xs |-> <<Node("Z", 1), [k |-> "seq", xs |-> <<Node("X", 1), Node("Y", 2)>>],
                              [k |-> "scale", xs |-> <<Node("Y", 1)>>, r |-> <<3, 1>>, p |-> ""]>>]
Noisefree(ops) == \A i \in DOMAIN ops : ops[i].ns = <<>>
Expect(ops) ==
  RLow(IF Len(init.v) = P2(n) /\ Noisefree(ops)
       THEN Braket(RunVec(ops, Len(ops), env, n, init), Obs, env, senv, n, RunVec(ops, Len(ops), env, n, init))
       ELSE TraceOf(Obs, env, senv, n,
              RunDM(ops, Len(ops), env, n, IF Len(init.v) = P2(n) THEN Outer(init, init) ELSE init)))

\* Deriv: the rule applied for each parameter of qs in turn, to a program whose
\* operations may have been moved before (names are those of the original program)
RECURSIVE Deriv(_, _), SumOccurrences(_, _, _), SumTerms(_, _, _, _, _)
Deriv(ops, qs) == IF qs = <<>> THEN Expect(ops) ELSE SumOccurrences(ops, qs, Len(ops))
SumOccurrences(ops, qs, i) ==
  IF i = 0 THEN RZero
  ELSE IF IsParam(Ops[i]) /\ Ops[i].p = qs[1]
  THEN RLow(RAdd(SumOccurrences(ops, qs, i - 1), SumTerms(ops, qs, i, Rule(Ops[i]), Len(Rule(Ops[i])))))
  ELSE SumOccurrences(ops, qs, i - 1)
SumTerms(ops, qs, i, rule, k) ==
  IF k = 0 THEN RZero
  ELSE RLow(RAdd(SumTerms(ops, qs, i, rule, k - 1),
                 RMul(rule[k].c, RAdd(Deriv(Move(ops, i, rule[k].s), Tail(qs)),
                                      RNeg(Deriv(Move(ops, i, -rule[k].s), Tail(qs)))))))

Params == {"a", "b"}
GradShift ==
  ph = "run" => \A q \in Params :
    REq(Deriv(Ops, <<q>>), IF IsVec THEN GradVec(jet, Obs, env, senv, n, q) ELSE GradDM(jet, Obs, env, senv, n, q))
HessShift ==
  ph = "run" => \A q, r \in Params :
    REq(Deriv(Ops, <<q, r>>),
        IF IsVec THEN HessVec(jet, Obs, env, senv, n, <<q, r>>) ELSE HessDM(jet, Obs, env, senv, n, <<q, r>>))
=============================================================================
