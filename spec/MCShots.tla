------------------------------- MODULE MCShots ------------------------------
EXTENDS MCShift
(***************************************************************************)
(* Measuring with shots.  After a program of the alphabet an observable    *)
(* w P + v Q of two Pauli strings is measured again and again.  A draw is  *)
(* one of its eigenvalues with the Born probability of its eigenspace, and *)
(* dist is the exact distribution of the sum of the draws so far: every    *)
(* history of at most Shots draws is accounted for with its weight.        *)
(*                                                                         *)
(* States are not normalised: weights of k draws add up to Norm^k.         *)
(***************************************************************************)
CONSTANT Shots
VARIABLES ob, k, dist

Sq(ob1) == \* the node of a string, I left out
  LET at == {w \in 1..2 : ob1[w] # "I"}
      one(w) == Node(ob1[w], w)
  IN  [k |-> "seq", xs |-> IF at = {1, 2} THEN <<one(1), one(2)>> ELSE IF at = {1} THEN <<one(1)>> ELSE <<one(2)>>]
Scaled(s, w) == [k |-> "scale", xs |-> <<Sq(s)>>, r |-> <<w, 1>>, p |-> ""]
Sum(o) == [k |-> "add", xs |-> <<Scaled(o.p, o.w), Scaled(o.q, o.v)>>]
Product(x, y) == [k |-> "add", xs |-> <<[k |-> "seq", xs |-> <<x, y>>]>>]

\* anticommuting strings have weights 3 and 4, so that their sum has eigenvalues 5 and -5
Measured == {[p |-> <<"Z", "I">>, q |-> <<"I", "Z">>, w |-> 1, v |-> 1],
             [p |-> <<"Z", "Z">>, q |-> <<"X", "X">>, w |-> 2, v |-> -1],
             [p |-> <<"Y", "I">>, q |-> <<"Y", "X">>, w |-> 1, v |-> 3],
             [p |-> <<"X", "I">>, q |-> <<"Z", "Y">>, w |-> 3, v |-> 4]}
Pure == Len(init.v) = P2(n) /\ IsVec
Value(node) == RLow(IF IsVec THEN Braket(jet.v, node, env, senv, n, jet.v) ELSE TraceOf(node, env, senv, n, jet.v))
RInt(i) == [d |-> 1, p |-> i, q |-> 0]
Weight == LET z == Norm2(jet) IN RLow(AReal(z))
Half(x, m) == RLow([x EXCEPT !.d = @ * m])

\* eigenvalues and their Born weights, as a sequence of pairs
Outcomes(o) ==
  IF AntiCommute(o.p, o.q)
  THEN LET e == Half(Value(Sum(o)), 5)
       IN  <<<<5, Half(RAdd(Weight, e), 2)>>, <<-5, Half(RAdd(Weight, RNeg(e)), 2)>>>>
  ELSE LET a == Value(Product(Sq(o.p), Sq(o.p)))   \* the identity, for the record
           x == Value([k |-> "add", xs |-> <<Sq(o.p)>>])
           y == Value([k |-> "add", xs |-> <<Sq(o.q)>>])
           z == Value(Product(Sq(o.p), Sq(o.q)))
           sg(s, r) == IF s = 1 THEN r ELSE RNeg(r)
           pr(s, t) == Half(RLow(RAdd(RAdd(a, sg(s, x)), RAdd(sg(t, y), sg(s * t, z)))), 4)
       IN  <<<<o.w + o.v, pr(1, 1)>>, <<o.w - o.v, pr(1, -1)>>, <<o.v - o.w, pr(-1, 1)>>, <<-o.w - o.v, pr(-1, -1)>>>>

Nothing == [p |-> <<"I", "I">>, q |-> <<"I", "I">>, w |-> 0, v |-> 0]
MInit == Init /\ ob = Nothing /\ k = 0 /\ dist = <<>>
Unmeasured == k = 0 /\ ob = Nothing
MRun == Unmeasured /\ (DoPrepare \/ DoOperate) /\ UNCHANGED <<ob, k, dist>>
At(f, s) == IF s \in DOMAIN f THEN f[s] ELSE RZero
\* the distribution after one more draw
RECURSIVE Fold(_, _, _, _)
Fold(f, out, s, j) ==
  IF j = 0 THEN RZero
  ELSE RLow(RAdd(Fold(f, out, s, j - 1), RMul(At(f, s - out[j][1]), out[j][2])))
Convolve(f, out) ==
  LET sums == {s + out[j][1] : s \in DOMAIN f, j \in DOMAIN out}
  IN  TLCEval([s \in sums |-> Fold(f, out, s, Len(out))])
MDraw ==
  /\ ph = "run" /\ k < Shots /\ k' = k + 1
  \* beyond, the numbers of TLC overflow
  /\ jet.v.d <= 50
  /\ k > 0 => \A s \in DOMAIN dist : dist[s].d <= (IF k = 1 THEN 80 ELSE 60)
  /\ \E o \in IF k = 0 THEN Measured ELSE {ob} :
       /\ ob' = o
       /\ dist' = Convolve(IF k = 0 THEN (0 :> RInt(1)) ELSE dist, Outcomes(o))
  /\ UNCHANGED <<vars, len>>
MSpec == MInit /\ [][MRun \/ MDraw]_<<vars, len, ob, k, dist>>

RECURSIVE Power(_, _), Total(_, _)
Power(x, m) == IF m <= 0 THEN RInt(1) ELSE RLow(RMul(x, Power(x, m - 1)))
Total(S, f) == IF S = {} THEN RZero
               ELSE LET s == CHOOSE s \in S : TRUE IN RLow(RAdd(f[s], Total(S \ {s}, f)))
Moment(m) == LET pw(s) == IF m = 0 THEN 1 ELSE IF m = 1 THEN s ELSE s * s
             IN  Total(DOMAIN dist, [s \in DOMAIN dist |-> RLow(RMul(RInt(pw(s)), dist[s]))])
Same(x, y) == RLow(x) = RLow(y)
NonNegative(r) == NonNegReal(<<r.p, r.q, 0, -r.q>>)

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Drawn == k > 0
\* weights are probabilities
IsDistribution == Drawn => /\ \A s \in DOMAIN dist : NonNegative(dist[s])
                           /\ Same(Moment(0), Power(Weight, k))
\* the mean of the draws is the exact expectation value
Unbiased == Drawn => Same(Moment(1), RMul(RInt(k), RMul(Power(Weight, k - 1), Value(Sum(ob)))))
\* and its variance that of one draw over the number of draws:
\* E[S^2] = k <O^2> + k (k - 1) <O>^2
Variance == Drawn =>
  LET e == Value(Sum(ob))
      e2 == Value(Product(Sum(ob), Sum(ob)))
  IN  Same(Moment(2),
          RAdd(RMul(RInt(k), RMul(Power(Weight, k - 1), e2)),
               IF k = 1 THEN RZero ELSE RMul(RInt(k * (k - 1)), RMul(Power(Weight, k - 2), RMul(e, e)))))
\* every mean of draws lies within the spectrum, and eigenstates are certain
Largest(o) == IF AntiCommute(o.p, o.q) THEN 5 ELSE Abs(o.w) + Abs(o.v)
Within == Drawn => \A s \in DOMAIN dist : Abs(s) <= k * Largest(ob)
Certain == Drawn =>
  LET e == Value(Sum(ob))
      support == {s \in DOMAIN dist : ~Same(dist[s], RZero)}
  IN  Same(RMul(Weight, Value(Product(Sum(ob), Sum(ob)))), RMul(e, e)) => Cardinality(support) = 1
=============================================================================
