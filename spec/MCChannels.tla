----------------------------- MODULE MCChannels -----------------------------
EXTENDS Channels, FiniteSets
(***************************************************************************)
(* The two descriptions of each noise channel agree: the superoperator     *)
(* replayed against the code is the sum over the Kraus operators, these    *)
(* are complete, and the channel acts on its wire only.  Checked on all    *)
(* matrix units of one and two wires, hence for every density matrix.      *)
(***************************************************************************)
VARIABLES ns, n, w, unit, out

P1 == {<<0, 1>>, <<1, 1>>, <<9, 25>>, <<16, 25>>, <<1, 2>>}
Instances ==
  {[ty |-> ty, pr |-> <<p>>] : ty \in {"BitFlip", "PhaseFlip", "AmplitudeDamping", "PhaseDamping"}, p \in P1}
  \cup {[ty |-> "Depolarizing", pr |-> <<p>>] : p \in {<<0, 1>>, <<3, 4>>}}
  \cup {[ty |-> "PauliChannel", pr |-> pr] :
          pr \in {<<<<1, 4>>, <<1, 4>>, <<1, 4>>>>, <<<<2, 4>>, <<0, 4>>, <<1, 4>>>>, <<<<0, 4>>, <<1, 4>>, <<1, 4>>>>,
                  <<<<0, 4>>, <<0, 4>>, <<0, 4>>>>, <<<<0, 4>>, <<4, 4>>, <<0, 4>>>>, <<<<2, 4>>, <<2, 4>>, <<0, 4>>>>}}
  \cup {[ty |-> "GeneralizedAmplitudeDamping", pr |-> <<p, g>>] : p, g \in P1}

NoArray == AZero(1)
Init == /\ ns \in Instances
        /\ n \in {1, 2} /\ w \in 1..n
        /\ unit \in 1..P2(2 * n)
        /\ out = NoArray
Unit == Basis(2 * n, unit - 1)
Apply == /\ out = NoArray
         /\ out' = TLCEval(ApplyChannel(ns, w, n, Unit))
         /\ UNCHANGED <<ns, n, w, unit>>
Spec == Init /\ [][Apply]_<<ns, n, w, unit, out>>

Applied == out # NoArray
KrausAgree == Applied => AEq(out, KrausSum(Kraus(ns), Len(Kraus(ns)), w, n, Unit))
TraceKept == Applied => AEq(Trace(n, out), Trace(n, Unit))
\* the dual: sum of K^dagger K is the identity
RECURSIVE SumKK(_, _, _, _)
SumKK(ks, k, r, c) ==
  IF k = 0 THEN AZero(1)
  ELSE AAdd(SumKK(ks, k - 1, r, c),
            [d |-> ks[k].d * ks[k].d,
             v |-> <<ZAdd(ZMul(ZConj(ks[k].m[1][r]), ks[k].m[1][c]),
                          ZMul(ZConj(ks[k].m[2][r]), ks[k].m[2][c]))>>])
Complete == \A r, c \in {1, 2} :
  AEq(SumKK(Kraus(ns), Len(Kraus(ns)), r, c), [d |-> 1, v |-> <<IF r = c THEN ZOne ELSE ZZero>>])
\* hermiticity preserving: the image of E^dagger is the dagger of the image
Transposed == ((unit - 1) % P2(n)) * P2(n) + ((unit - 1) \div P2(n))
HermitianPreserving ==
  Applied => LET o == ApplyChannel(ns, w, n, Basis(2 * n, Transposed))
             IN  \A i, j \in 1..P2(n) :
                   ZScale(out.d, o.v[(i - 1) * P2(n) + j])
                     = ZScale(o.d, ZConj(out.v[(j - 1) * P2(n) + i]))
=============================================================================
