-------------------------------- MODULE Ring --------------------------------
EXTENDS Integers, Sequences, TLC
(***************************************************************************)
(* Exact arithmetic for quantum amplitudes.                                *)
(*                                                                         *)
(* A number of the ring Z[w], w = exp(i pi/4), is the tuple <<a,b,c,d>>    *)
(* standing for a + b w + c w^2 + d w^3 (w^4 = -1, hence w^2 = i and       *)
(* sqrt(2) = w - w^3).  Arrays of amplitudes are records [d, v]: a         *)
(* positive integer denominator and a sequence of numbers of the ring, so  *)
(* that no rounding ever happens.  TLC raises an error on 32-bit overflow, *)
(* hence a result is either exact or not produced at all.                  *)
(***************************************************************************)

ZZero == <<0, 0, 0, 0>>
ZOne  == <<1, 0, 0, 0>>
ZI    == <<0, 0, 1, 0>>
ZSqrt2 == <<0, 1, 0, -1>>

ZAdd(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4]>>
ZSub(x, y) == <<x[1] - y[1], x[2] - y[2], x[3] - y[3], x[4] - y[4]>>
ZNeg(x)    == <<-x[1], -x[2], -x[3], -x[4]>>
ZScale(k, x) == <<k * x[1], k * x[2], k * x[3], k * x[4]>>
ZMul(x, y) ==
  << x[1]*y[1] - x[2]*y[4] - x[3]*y[3] - x[4]*y[2],
     x[1]*y[2] + x[2]*y[1] - x[3]*y[4] - x[4]*y[3],
     x[1]*y[3] + x[2]*y[2] + x[3]*y[1] - x[4]*y[4],
     x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1] >>
ZConj(x) == <<x[1], -x[4], -x[3], -x[2]>>

\* w^k for any integer k
ZRoot(k) ==
  LET r == k % 8
      s == IF r >= 4 THEN -1 ELSE 1
  IN  [j \in 1..4 |-> IF j = (r % 4) + 1 THEN s ELSE 0]

\* Twice the real part, as <<p, q>> standing for p + q sqrt(2)
ZTwiceRe(x) == <<2 * x[1], x[2] - x[4]>>
ZIsReal(x) == x[3] = 0 /\ x[4] = -x[2]

Abs(k) == IF k < 0 THEN -k ELSE k

(***************************************************************************)
(* Arrays                                                                  *)
(***************************************************************************)
RECURSIVE Strip(_, _)
Strip(p, a) ==
  IF a.d % p = 0 /\ \A i \in DOMAIN a.v : \A c \in 1..4 : a.v[i][c] % p = 0
  THEN Strip(p, [d |-> a.d \div p,
                 v |-> TLCEval([i \in DOMAIN a.v |->
                         <<a.v[i][1] \div p, a.v[i][2] \div p,
                           a.v[i][3] \div p, a.v[i][4] \div p>>])])
  ELSE a
\* Denominators only ever have the prime factors 2, 3 and 5
Reduce(a) == IF a.d = 1 THEN a
             ELSE Strip(3, Strip(5, Strip(2, [d |-> a.d, v |-> TLCEval(a.v)])))

AZero(len) == [d |-> 1, v |-> [i \in 1..len |-> ZZero]]

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

AAdd(a, b) ==
  LET g == Gcd(a.d, b.d)
      ka == b.d \div g
      kb == a.d \div g
  IN  Reduce([d |-> a.d * ka,
              v |-> TLCEval([i \in DOMAIN a.v |->
                      ZAdd(ZScale(ka, a.v[i]), ZScale(kb, b.v[i]))])])
\* Multiplication by num / den, num a number of the ring
AScale(num, den, a) ==
  Reduce([d |-> a.d * den, v |-> TLCEval([i \in DOMAIN a.v |-> ZMul(num, a.v[i])])])
ASub(a, b) == AAdd(a, AScale(<<-1, 0, 0, 0>>, 1, b))

AEq(a, b) ==
  IF a.d = b.d THEN \A i \in DOMAIN a.v : a.v[i] = b.v[i]
  ELSE \A i \in DOMAIN a.v : ZScale(b.d, a.v[i]) = ZScale(a.d, b.v[i])

RECURSIVE ZSum(_, _)
ZSum(s, k) == IF k = 0 THEN ZZero ELSE ZAdd(ZSum(s, k - 1), s[k])

\* Sum of conj(a[i]) * b[i], as a one-element array
AInner(a, b) ==
  Reduce([d |-> a.d * b.d,
          v |-> <<ZSum([i \in DOMAIN a.v |-> ZMul(ZConj(a.v[i]), b.v[i])], Len(a.v))>>])

\* Real part of a one-element array: [d, p, q] standing for (p + q sqrt(2)) / d
AReal(a) == LET t == ZTwiceRe(a.v[1]) IN [d |-> 2 * a.d, p |-> t[1], q |-> t[2]]

AMax(a) == \* largest coordinate, to keep away from overflow
  LET S == {Abs(a.v[i][c]) : i \in DOMAIN a.v, c \in 1..4}
  IN  CHOOSE m \in S : \A k \in S : k <= m
=============================================================================
