------------------------------ MODULE Channels ------------------------------
EXTENDS Gates, Integers, Sequences
(***************************************************************************)
(* The seven digital noise channels, each twice: as the linear map it      *)
(* applies to a one-qubit density matrix (a 4x4 matrix over the entries    *)
(* 00, 01, 10, 11), and as Kraus operators where these are exact.  The     *)
(* first is the specification replayed against the code; that the two      *)
(* agree is an invariant of MCChannels.                                    *)
(*                                                                         *)
(* Probabilities are pairs <<num, den>>.                                   *)
(***************************************************************************)

Sc(k) == <<k, 0, 0, 0>>
\* Linear maps rho -> rho, X rho X, Y rho Y, Z rho Z over the entries
Pauli4(a, x, y, z) ==
  <<<<Sc(a + z), Z0, Z0, Sc(x + y)>>,
    <<Z0, Sc(a - z), Sc(x - y), Z0>>,
    <<Z0, Sc(x - y), Sc(a - z), Z0>>,
    <<Sc(x + y), Z0, Z0, Sc(a + z)>>>>

\* sqrt(1 - g) for the damping rates where it lies in the ring, as <<ring, den>>
SqrtOneMinus(g) ==
  CASE g = <<0, 1>> -> <<Z1, 1>>
    [] g = <<1, 1>> -> <<Z0, 1>>
    [] g = <<9, 25>> -> <<Sc(4), 5>>
    [] g = <<16, 25>> -> <<Sc(3), 5>>
    [] g = <<3, 4>> -> <<Sc(1), 2>>
    [] g = <<1, 2>> -> <<ZSqrt2, 2>>
SqrtOf(g) ==
  CASE g = <<0, 1>> -> <<Z0, 1>>
    [] g = <<1, 1>> -> <<Z1, 1>>
    [] g = <<9, 25>> -> <<Sc(3), 5>>
    [] g = <<16, 25>> -> <<Sc(4), 5>>
    [] g = <<1, 2>> -> <<ZSqrt2, 2>>
    [] g = <<1, 4>> -> <<Sc(1), 2>>
    [] g = <<3, 4>> -> <<Z0, 0>>  \* not in the ring: never used
DampingRates == {<<0, 1>>, <<1, 1>>, <<9, 25>>, <<16, 25>>, <<3, 4>>, <<1, 2>>}

NoiseTypes == {"BitFlip", "PhaseFlip", "Depolarizing", "PauliChannel",
               "AmplitudeDamping", "PhaseDamping", "GeneralizedAmplitudeDamping"}

\* The superoperator over entries 00, 01, 10, 11
Channel(ns) ==
  LET p == ns.pr[1]
      pn == p[1]
      pd == p[2]
  IN CASE ns.ty = "BitFlip"   -> [d |-> pd, m |-> Pauli4(pd - pn, pn, 0, 0)]
       [] ns.ty = "PhaseFlip" -> [d |-> pd, m |-> Pauli4(pd - pn, 0, 0, pn)]
       [] ns.ty = "Depolarizing" ->
            [d |-> 3 * pd, m |-> Pauli4(3 * (pd - pn), pn, pn, pn)]
       [] ns.ty = "PauliChannel" -> \* the three share a denominator
            LET x == ns.pr[1][1]
                y == ns.pr[2][1]
                z == ns.pr[3][1]
            IN  [d |-> pd, m |-> Pauli4(pd - x - y - z, x, y, z)]
       [] ns.ty = "AmplitudeDamping" ->
            LET s == SqrtOneMinus(p)
                c == ZScale(pd, s[1])       \* sqrt(1-g) over s[2] * pd
                D == s[2] * pd
            IN  [d |-> D, m |-> <<<<Sc(D), Z0, Z0, Sc(pn * s[2])>>,
                                  <<Z0, c, Z0, Z0>>, <<Z0, Z0, c, Z0>>,
                                  <<Z0, Z0, Z0, Sc((pd - pn) * s[2])>>>>]
       [] ns.ty = "PhaseDamping" ->
            LET s == SqrtOneMinus(p)
            IN  [d |-> s[2], m |-> <<<<Sc(s[2]), Z0, Z0, Z0>>, <<Z0, s[1], Z0, Z0>>,
                                     <<Z0, Z0, s[1], Z0>>, <<Z0, Z0, Z0, Sc(s[2])>>>>]
       [] ns.ty = "GeneralizedAmplitudeDamping" ->
            LET g == ns.pr[2]
                gn == g[1]
                gd == g[2]
                s == SqrtOneMinus(g)
                D == pd * gd * s[2]
                c == ZScale(pd * gd, s[1])
            IN  [d |-> D,
                 m |-> <<<<Sc((pd * gd - (pd - pn) * gn) * s[2]), Z0, Z0, Sc(pn * gn * s[2])>>,
                         <<Z0, c, Z0, Z0>>, <<Z0, Z0, c, Z0>>,
                         <<Sc((pd - pn) * gn * s[2]), Z0, Z0, Sc((pd * gd - pn * gn) * s[2])>>>>]

ApplyChannel(ns, w, n, rho) == ApplyMat(Channel(ns), <<w, w + n>>, <<>>, 2 * n, rho)

(***************************************************************************)
(* Kraus operators, for probabilities whose square roots are in the ring   *)
(***************************************************************************)
K2(s, a, b, c, e) == [d |-> s[2], m |-> <<<<ZMul(s[1], a), ZMul(s[1], b)>>,
                                          <<ZMul(s[1], c), ZMul(s[1], e)>>>>]
KPauli(s, name) == MScale(s[1], s[2], Static(name))
Compl(p) == <<p[2] - p[1], p[2]>>
LowestTerms(p) == LET g == Gcd(p[2], p[1]) IN <<p[1] \div g, p[2] \div g>>
Kraus(ns) ==
  LET p == ns.pr[1]
  IN CASE ns.ty = "BitFlip" -> <<KPauli(SqrtOneMinus(p), "I"), KPauli(SqrtOf(p), "X")>>
       [] ns.ty = "PhaseFlip" -> <<KPauli(SqrtOneMinus(p), "I"), KPauli(SqrtOf(p), "Z")>>
       [] ns.ty = "Depolarizing" ->
            LET t == LowestTerms(<<p[1], 3 * p[2]>>)
            IN  <<KPauli(SqrtOneMinus(p), "I"), KPauli(SqrtOf(t), "X"),
                  KPauli(SqrtOf(t), "Y"), KPauli(SqrtOf(t), "Z")>>
       [] ns.ty = "PauliChannel" ->
            LET x == LowestTerms(ns.pr[1])
                y == LowestTerms(ns.pr[2])
                z == LowestTerms(ns.pr[3])
                r == LowestTerms(<<p[2] - ns.pr[1][1] - ns.pr[2][1] - ns.pr[3][1], p[2]>>)
            IN  <<KPauli(SqrtOf(r), "I"), KPauli(SqrtOf(x), "X"),
                  KPauli(SqrtOf(y), "Y"), KPauli(SqrtOf(z), "Z")>>
       [] ns.ty = "AmplitudeDamping" ->
            LET s == SqrtOneMinus(p)
                t == SqrtOf(p)
            IN  <<[d |-> s[2], m |-> <<<<Sc(s[2]), Z0>>, <<Z0, s[1]>>>>],
                  [d |-> t[2], m |-> <<<<Z0, t[1]>>, <<Z0, Z0>>>>]>>
       [] ns.ty = "PhaseDamping" ->
            LET s == SqrtOneMinus(p)
                t == SqrtOf(p)
            IN  <<[d |-> s[2], m |-> <<<<Sc(s[2]), Z0>>, <<Z0, s[1]>>>>],
                  [d |-> t[2], m |-> <<<<Z0, Z0>>, <<Z0, t[1]>>>>]>>
       [] ns.ty = "GeneralizedAmplitudeDamping" ->
            LET a == SqrtOf(p)
                b == SqrtOneMinus(p)
                s == SqrtOneMinus(ns.pr[2])
                t == SqrtOf(ns.pr[2])
            IN  <<MScale(a[1], a[2], [d |-> s[2], m |-> <<<<Sc(s[2]), Z0>>, <<Z0, s[1]>>>>]),
                  MScale(a[1], a[2], [d |-> t[2], m |-> <<<<Z0, t[1]>>, <<Z0, Z0>>>>]),
                  MScale(b[1], b[2], [d |-> s[2], m |-> <<<<s[1], Z0>>, <<Z0, Sc(s[2])>>>>]),
                  MScale(b[1], b[2], [d |-> t[2], m |-> <<<<Z0, Z0>>, <<t[1], Z0>>>>])>>

RECURSIVE KrausSum(_, _, _, _, _)
KrausSum(ks, k, w, n, rho) ==
  IF k = 0 THEN AZero(P2(2 * n))
  ELSE AAdd(KrausSum(ks, k - 1, w, n, rho),
            RightOnly(ks[k], <<w>>, <<>>, n, LeftOnly(ks[k], <<w>>, <<>>, n, rho)))
=============================================================================
