------------------------------- MODULE Gates --------------------------------
EXTENDS Register, Integers, Sequences
(***************************************************************************)
(* The gate set.  Angles are codes <<k, m>>: theta / 2 is                  *)
(* k pi/4 + m atan2(3, 4), hence exp(i theta/2) = w^k ((4+3i)/5)^m lies in *)
(* the ring up to the denominator 5^|m|.                                   *)
(***************************************************************************)

StaticNames1 == {"I", "X", "Y", "Z", "H", "S", "T"}
StaticNames2 == {"SWAP", "SQRTSWAP", "ISWAP", "ISQRTSWAP"}
RotNames     == {"RX", "RY", "RZ"}
ParamNames1  == RotNames \cup {"PHASE"}

RECURSIVE Pow345(_)
Pow345(m) == IF m = 0 THEN [d |-> 1, z |-> ZOne]
             ELSE IF m > 0 THEN LET r == Pow345(m - 1)
                                IN [d |-> 5 * r.d, z |-> ZMul(<<4, 0, 3, 0>>, r.z)]
             ELSE LET r == Pow345(-m) IN [d |-> r.d, z |-> ZConj(r.z)]

\* exp(i theta/2) as [d, z]
HalfPhase(code) == LET r == Pow345(code[2]) IN [d |-> r.d, z |-> ZMul(ZRoot(code[1]), r.z)]
\* 2 cos(theta/2), 2 sin(theta/2) over the denominator of HalfPhase
TwoCos(u) == ZAdd(u.z, ZConj(u.z))
TwoSin(u) == ZMul(<<0, 0, -1, 0>>, ZSub(u.z, ZConj(u.z)))

ShiftCode(code, k) == <<code[1] + k, code[2]>>   \* theta + k pi/2
NegCode(code) == <<-code[1], -code[2]>>

Z0 == ZZero
Z1 == ZOne
M2(d, a, b, c, e) == [d |-> d, m |-> <<<<a, b>>, <<c, e>>>>]

Rot(name, code) ==
  LET u == HalfPhase(code)
      c == TwoCos(u)
      s == TwoSin(u)
      is == ZMul(ZI, s)
  IN  CASE name = "RX" -> M2(2 * u.d, c, ZNeg(is), ZNeg(is), c)
        [] name = "RY" -> M2(2 * u.d, c, ZNeg(s), s, c)
        [] name = "RZ" -> M2(u.d, ZConj(u.z), Z0, Z0, u.z)
        [] name = "PHASE" -> M2(u.d * u.d, <<u.d * u.d, 0, 0, 0>>, Z0, Z0, ZMul(u.z, u.z))

Static(name) ==
  CASE name = "I" -> M2(1, Z1, Z0, Z0, Z1)
    [] name = "X" -> M2(1, Z0, Z1, Z1, Z0)
    [] name = "Y" -> M2(1, Z0, <<0, 0, -1, 0>>, ZI, Z0)
    [] name = "Z" -> M2(1, Z1, Z0, Z0, <<-1, 0, 0, 0>>)
    [] name = "H" -> M2(2, ZSqrt2, ZSqrt2, ZSqrt2, ZNeg(ZSqrt2))
    [] name = "S" -> M2(1, Z1, Z0, Z0, ZI)
    [] name = "T" -> M2(1, Z1, Z0, Z0, <<0, 1, 0, 0>>)
    [] name = "SWAP" -> [d |-> 1, m |-> <<<<Z1, Z0, Z0, Z0>>, <<Z0, Z0, Z1, Z0>>,
                                          <<Z0, Z1, Z0, Z0>>, <<Z0, Z0, Z0, Z1>>>>]
    [] name = "ISWAP" -> [d |-> 1, m |-> <<<<Z1, Z0, Z0, Z0>>, <<Z0, Z0, ZI, Z0>>,
                                           <<Z0, ZI, Z0, Z0>>, <<Z0, Z0, Z0, Z1>>>>]
    [] name = "SQRTSWAP" ->
         LET p == <<1, 0, 1, 0>>
             q == <<1, 0, -1, 0>>
             t == <<2, 0, 0, 0>>
         IN  [d |-> 2, m |-> <<<<t, Z0, Z0, Z0>>, <<Z0, p, q, Z0>>,
                               <<Z0, q, p, Z0>>, <<Z0, Z0, Z0, t>>>>]
    [] name = "ISQRTSWAP" ->
         LET p == ZSqrt2
             q == ZMul(ZI, ZSqrt2)
             t == <<2, 0, 0, 0>>
         IN  [d |-> 2, m |-> <<<<t, Z0, Z0, Z0>>, <<Z0, p, q, Z0>>,
                               <<Z0, q, p, Z0>>, <<Z0, Z0, Z0, t>>>>]

Matrix(name, code) == IF name \in ParamNames1 THEN Rot(name, code) ELSE Static(name)

\* d/dtheta and d2/dtheta2 of a parametric gate, on the active block.
\* R(theta)' = R(theta + pi) / 2 and R'' = - R / 4 ; PHASE' and PHASE'' act on |1>.
DMatrix(name, code) ==
  IF name = "PHASE"
  THEN LET u == HalfPhase(code)
       IN  M2(u.d * u.d, Z0, Z0, Z0, ZMul(ZI, ZMul(u.z, u.z)))
  ELSE MScale(ZOne, 2, Rot(name, ShiftCode(code, 2)))
D2Matrix(name, code) ==
  IF name = "PHASE"
  THEN LET u == HalfPhase(code)
       IN  M2(u.d * u.d, Z0, Z0, Z0, ZNeg(ZMul(u.z, u.z)))
  ELSE MScale(<<-1, 0, 0, 0>>, 4, Rot(name, code))
=============================================================================
